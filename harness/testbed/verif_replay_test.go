package main

import (
	"errors"
	"io"
	"math/rand"
	"net/http"
	"os"
	"sort"
	"strings"
	"testing"
)

type c23Body struct {
	io.Reader
}

func (c23Body) Close() error { return nil }

type c23Fail struct{}

func (c23Fail) Read([]byte) (int, error) { return 0, errors.New("read failed") }

type c23Transport struct{ mode int }

func (c c23Transport) RoundTrip(r *http.Request) (*http.Response, error) {
	switch c.mode {
	case 0:
		return nil, errors.New("no network")
	case 1:
		return &http.Response{StatusCode: 200, Body: c23Body{c23Fail{}}, Request: r, Header: http.Header{}}, nil
	case 2:
		return &http.Response{StatusCode: 500, Body: c23Body{strings.NewReader("")}, Request: r, Header: http.Header{}}, nil
	case 3:
		return &http.Response{StatusCode: 200, Body: c23Body{strings.NewReader(strings.Repeat("x", 9<<20))}, Request: r, Header: http.Header{}}, nil
	default:
		return &http.Response{StatusCode: 200, Body: c23Body{strings.NewReader(`"r-1","focal","20.04 LTS","amd64","x","1","<a>ami-1</a>"` + "\n")}, Request: r, Header: http.Header{}}, nil
	}
}

type c23Seq struct{ modes *[]int }

func (c c23Seq) RoundTrip(r *http.Request) (*http.Response, error) {
	m := (*c.modes)[0]
	if len(*c.modes) > 1 {
		*c.modes = (*c.modes)[1:]
	}
	return c23Transport{m}.RoundTrip(r)
}

func TestC23(t *testing.T) {
	names := []string{"http.Get fails", "reading the body fails", "status 500", "line too long", "success"}
	for mode := range names {
		AWSImageList = ""
		http.DefaultTransport = c23Transport{mode}
		http.DefaultClient.Transport = c23Transport{mode}
		for rep := 0; rep < 2; rep++ {
			_, err := AWSGetImageID("r-1")
			if !AWSImageListLock.TryLock() {
				t.Fatalf("FAILING-INPUT AWSGetImageID with %s (call %d) returned %v and left AWSImageListLock locked", names[mode], rep+1, err)
			}
			AWSImageListLock.Unlock()
		}
	}
	for a := range names {
		for b := range names {
			modes := []int{a, b}
			AWSImageList = ""
			rt := c23Seq{&modes}
			http.DefaultTransport = rt
			http.DefaultClient.Transport = rt
			lock := AWSImageListLock
			println("CASE: AWSGetImageID, first request:", names[a], "later requests:", names[b])
			_, err := AWSGetImageID("r-1")
			if !AWSImageListLock.TryLock() {
				t.Fatalf("FAILING-INPUT AWSGetImageID where the first request gets %q and later ones %q returned %v and left AWSImageListLock locked", names[a], names[b], err)
			}
			AWSImageListLock.Unlock()
			if lock != AWSImageListLock && !lock.TryLock() {
				t.Fatalf("FAILING-INPUT AWSGetImageID where the first request gets %q and later ones %q left the lock it took locked", names[a], names[b])
			}
		}
	}
	ls := []string{"", "a", "ab", "b", "a\x00", "B", "ä"}
	r := rand.New(rand.NewSource(1))
	for it := 0; it < 20000; it++ {
		n := r.Intn(7)
		s := make(ServerByLocation, n)
		for i := range s {
			s[i] = Server{Location: ls[r.Intn(len(ls))], ID: ls[r.Intn(len(ls))], Port: i}
		}
		in := append([]Server{}, s...)
		if s.Len() != n {
			t.Fatalf("FAILING-INPUT Len of %d servers is %d", n, s.Len())
		}
		for i := range s {
			for j := range s {
				want := s[i].Location < s[j].Location || s[i].Location == s[j].Location && s[i].ID < s[j].ID
				if s.Less(i, j) != want {
					t.Fatalf("FAILING-INPUT Less(%+v, %+v) = %v", s[i], s[j], !want)
				}
			}
		}
		sort.Sort(s)
		seen := map[int]bool{}
		for i := range s {
			if seen[s[i].Port] || s[i] != in[s[i].Port] {
				t.Fatalf("FAILING-INPUT sorting %+v gives %+v", in, []Server(s))
			}
			seen[s[i].Port] = true
			if i > 0 && (s[i-1].Location > s[i].Location || s[i-1].Location == s[i].Location && s[i-1].ID > s[i].ID) {
				t.Fatalf("FAILING-INPUT sorting %+v gives %+v", in, []Server(s))
			}
		}
	}
	for it := 0; it < 200; it++ {
		n := r.Intn(7)
		var in []AWSServer
		for i := 0; i < n; i++ {
			in = append(in, AWSServer{Region: ls[r.Intn(5)], ID: ls[r.Intn(5)], PublicIP: "p", PrivateIP: "q", Tag: "t"})
		}
		f := t.TempDir() + "/inv.json"
		os.Setenv("HOME", t.TempDir())
		AWSDumpServerInfo(f, in)
		out := ReadServerInfo(f)
		cnt := map[[2]string]int{}
		for i, s := range out {
			cnt[[2]string{s.Location, s.ID}]++
			if i > 0 && (out[i-1].Location > s.Location || out[i-1].Location == s.Location && out[i-1].ID > s.ID) {
				t.Fatalf("FAILING-INPUT inventory of %+v is not sorted: %+v", in, out)
			}
		}
		for _, s := range in {
			cnt[[2]string{s.Region, s.ID}]--
		}
		for k, v := range cnt {
			if v != 0 {
				t.Fatalf("FAILING-INPUT inventory of %+v misses or repeats %v: %+v", in, k, out)
			}
		}
	}
}

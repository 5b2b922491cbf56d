from seedlib import seed
H = '''package main
import ("testing"; "sort"; "errors"; "net/http"; "io"; "strings"; "time")
var _ = sort.Sort
type rt struct { f func() (*http.Response, error) }
func (r rt) RoundTrip(q *http.Request) (*http.Response, error) { return r.f() }
type bad struct{}
func (bad) Read([]byte) (int, error) { return 0, errors.New("x") }
func (bad) Close() error { return nil }
var _ = io.EOF
var _ = strings.NewReader
var _ = time.Now
'''
seed('c23-equal-ids', 'C23', [('testbed/cluster.go', 'return strings.Compare(s[i].ID, s[j].ID) == -1', 'return strings.Compare(s[i].ID, s[j].ID) != 1')],
 'testbed', H + '''
func TestDemo(t *testing.T) {
	s := ServerByLocation{{Location: "a", ID: "x"}, {Location: "a", ID: "x"}}
	if s.Less(0, 1) && s.Less(1, 0) { t.Fatal("two servers with the same location and id are each less than the other") }
}
''', 'two servers with the same location and id', 'the ordering is not a strict order, so sorting is unspecified')
seed('c23-mixed-key', 'C23', [('testbed/cluster.go', 'byloc := strings.Compare(s[i].Location, s[j].Location)', 'byloc := strings.Compare(s[i].Location, s[j].Location)\n	if len(s[i].Location) == 0 || len(s[j].Location) == 0 {\n		byloc = 0\n	}')],
 'testbed', H + '''
func TestDemo(t *testing.T) {
	s := ServerByLocation{{Location: "b", ID: "1"}, {Location: "", ID: "2"}, {Location: "a", ID: "3"}}
	if s.Less(0, 1) && s.Less(1, 2) && !s.Less(0, 2) { t.Fatal("the order is not transitive") }
}
''', 'a server without a location among servers whose locations and ids are ordered differently', 'the ordering is not transitive')
seed('c23-try-lock', 'C23', [('testbed/aws.go', '''		resp, err := http.Get("https://cloud-images.ubuntu.com/locator/ec2/releasesTable")
		if err != nil {
			return "", err
		}
''', '''		resp, err := http.Get("https://cloud-images.ubuntu.com/locator/ec2/releasesTable")
		if err != nil {
			return "", err
		}
		if resp.StatusCode != http.StatusOK {
			// fetch again without holding up the other regions
			AWSImageListLock.Unlock()
			time.Sleep(time.Millisecond)
			AWSImageListLock.Lock()
			resp, err = http.Get("https://cloud-images.ubuntu.com/locator/ec2/releasesTable")
			if err != nil {
				AWSImageListLock.Unlock()
				AWSImageListLock = &sync.Mutex{}
				AWSImageListLock.Lock()
				return "", err
			}
		}
'''), ('testbed/aws.go', '	"sync"\n', '	"sync"\n	"time"\n')],
 'testbed', H + '''
func TestDemo(t *testing.T) {
	n := 0
	c := rt{func() (*http.Response, error) { n++; if n > 1 { return nil, errors.New("down") }; return &http.Response{StatusCode: 500, Body: bad{}, Header: http.Header{}}, nil }}
	http.DefaultTransport = c; http.DefaultClient.Transport = c
	AWSImageList = ""
	AWSGetImageID("r-1")
	if !AWSImageListLock.TryLock() { t.Fatal("the lock is still held") }
}
''', 'the image table answers with an error status and the second attempt fails', 'the list lock is replaced by a locked one and never released')

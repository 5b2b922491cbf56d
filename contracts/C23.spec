// C23: the image-list lock is released on every path; server inventories are totally ordered
load testbed
option benign:bufio on
option benign:regexp on
option benign:strings on
// which mutexes are held by the calling goroutine
ghostvar $held : (Array Int Bool)
assume sync.Mutex: Lock of a mutex the goroutine already holds never returns, Unlock of an unlocked mutex ends the process
extern sync Mutex.Lock(m)
  requires notHeld: !$held[ref(m)]
  modifies $held
  ensures $held == upd(old($held), ref(m), true)
extern sync Mutex.Unlock(m)
  requires held: $held[ref(m)]
  modifies $held
  ensures $held == upd(old($held), ref(m), false)
assume http.Get returns a response with a body whenever it returns no error; any call of the standard library may fail
extern net/http Get(url) r, err
  ensures err == nil ==> fresh(r) && r.Body != nil
extern io/ioutil ReadAll(r) b, err
extern io ReadAll(r) b, err
extern io ReadCloser.Close(c) err
extern io Closer.Close(c) err
assume the pattern of AWSGetImageID has one group, so a match has at least two entries
extern regexp Regexp.FindStringSubmatch(r, s) m
  ensures len(m) == 0 || len(m) >= 2
extern regexp MustCompile(s) r
  ensures fresh(r)
extern bufio NewScanner(r) s
  ensures fresh(s)
extern strings NewReader(s) r
  ensures fresh(r)
// strings.Compare: a total order on strings
logic scmp(Str, Str) int
smt
  (assert (forall ((a Str) (b Str)) (! (and (<= (- 1) (scmp a b) 1) (= (scmp b a) (- (scmp a b))) (= (= (scmp a b) 0) (= a b))) :pattern ((scmp a b)))))
  (assert (forall ((a Str) (b Str) (c Str)) (! (=> (and (< (scmp a b) 0) (< (scmp b c) 0)) (< (scmp a c) 0)) :pattern ((scmp a b) (scmp b c)))))
extern strings Compare(a, b) r
  ensures r == scmp(a, b)
package testbed
func AWSGetImageID(region) res, err
  requires AWSImageListLock != 0
  requires free: !$held[ref(AWSImageListLock)]
  modifies $held, AWSImageList
  loop 1
    invariant $held == pre($held)
  end
  ensures released: $held == old($held)
define before(a, b) = scmp(a.Location, b.Location) < 0 || a.Location == b.Location && scmp(a.ID, b.ID) < 0
func ServerByLocation.Len(s) n
  modifies nothing
  ensures n == len(s)
func ServerByLocation.Less(s, i, j) r
  requires 0 <= i && i < len(s) && 0 <= j && j < len(s)
  modifies nothing
  ensures byLocationThenID: r <==> before(s[i], s[j])
func ServerByLocation.Swap(s, i, j)
  requires 0 <= i && i < len(s) && 0 <= j && j < len(s)
  modifies s[*]
  ensures swapped: s[i] == old(s[j]) && s[j] == old(s[i])
  ensures others: forall k in s :: k != i && k != j ==> s[k] == old(s[k])
lemma strictOrder(la Str, ia Str, lb Str, ib Str, lc Str, ic Str)
  ensures !lt2(la, ia, la, ia)
  ensures lt2(la, ia, lb, ib) ==> !lt2(lb, ib, la, ia)
  ensures lt2(la, ia, lb, ib) && lt2(lb, ib, lc, ic) ==> lt2(la, ia, lc, ic)
  ensures lt2(la, ia, lb, ib) || lt2(lb, ib, la, ia) || la == lb && ia == ib
  noaxiom
define lt2(la, ia, lb, ib) = scmp(la, lb) < 0 || la == lb && scmp(ia, ib) < 0
// inventories are sorted before they are written, and list every server once
ghostvar $perm : (Array Int Int)
ghostvar $sorts : Int
assume sort.Sort permutes the elements so that no element is Less than an earlier one
extern sort Sort(x)
  requires is(x, "testbed.ServerByLocation")
  modifies as(x, "testbed.ServerByLocation")[*], $perm, $sorts
  ensures $sorts == old($sorts) + 1
  ensures let s := as(x, "testbed.ServerByLocation") :: forall i in s, j in s :: i < j ==> !before(s[j], s[i])
  ensures let s := as(x, "testbed.ServerByLocation") :: forall i in s :: let p := $perm[i] :: 0 <= p && p < len(s) && s[i] == old(s[p])
  ensures let s := as(x, "testbed.ServerByLocation") :: forall i in s, j in s :: $perm[i] == $perm[j] ==> i == j
extern os UserHomeDir() d, err
extern os Create(p) f, err
  ensures err == nil ==> fresh(f)
extern os File.Close(f) err
extern encoding/json NewEncoder(w) e
  ensures fresh(e)
extern encoding/json Encoder.SetIndent(e, a, b)
ghostvar $n : Int
extern encoding/json Encoder.Encode(e, v) err
  requires inventory: is(v, "[]testbed.Server")
  requires sorted: let s := as(v, "[]testbed.Server") :: forall i in s, j in s :: i < j ==> !before(s[j], s[i])
  requires complete: let s := as(v, "[]testbed.Server") :: len(s) == $n && $sorts == 1
define awsEntry(d, s) = d.ID == s.ID && d.Location == s.Region && d.PublicIP == s.PublicIP && d.PrivateIP == s.PrivateIP && d.Tag == s.Tag
func AWSDumpServerInfo(path, servers)
  requires start: $sorts == 0 && $n == len(servers)
  modifies $perm, $sorts, allelems("testbed.Server")
  local dt []Server
  loop 1
    invariant len(dt) == $k && off(dt) == 0 && (fresh(dt) || cap(dt) == 0)
    invariant forall i in dt :: awsEntry(dt[i], servers[i])
  end
  before Encode: forall i in dt :: let p := $perm[i] :: 0 <= p && p < len(servers) && awsEntry(dt[i], servers[p])
func DumpServerInfo(path, servers)
  requires start: $sorts == 0 && $n == len(servers)
  modifies $perm, $sorts, allelems("testbed.Server")
  local dt []Server
  loop 1
    invariant len(dt) == $k && off(dt) == 0 && (fresh(dt) || cap(dt) == 0)
    invariant forall i in dt :: dt[i].ID == servers[i].InstanceID && dt[i].Location == servers[i].Location && dt[i].PublicIP == servers[i].MainIP
  end

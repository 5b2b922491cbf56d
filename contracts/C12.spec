// C12: codewords of the byte-oriented encoder are XORs of their named window transactions
load ldpc
option appendzero on
include txdata.inc
include hash.inc
package ldpc
// position of every hash in the window
ghostvar $wi : (Array Int Int)
// selection buffers in the recycling pool
ghostvar $cbpool : (Array Int Bool)
smt members
  // parity of bit u of byte k over the transactions named by the first n members
  (declare-fun mparity ((Array Int Int) (Array Int Int) (Array Int Int) Int (Array Int (Array Int Int)) Int Int Int) Bool)
  (assert (forall ((M (Array Int Int)) (W (Array Int Int)) (X (Array Int Int)) (o Int) (S (Array Int (Array Int Int))) (n Int) (k Int) (u Int))
    (! (= (mparity M W X o S n k u) (and (> n 0) (xor (mparity M W X o S (- n 1) k u) (hbit (select (select S (select X (+ o (select W (select M (- n 1)))))) k) u)))) :pattern ((mparity M W X o S n k u)))))
lemma mparity_ext(M ints, M2 ints, W ints, X ints, o int, S (Array Int (Array Int Int)), n int)
  requires n >= 0
  requires forall j int {M[j]} {M2[j]} :: 0 <= j && j < n ==> M2[j] == M[j]
  ensures forall k int, u int {mparity(M2, W, X, o, S, n, k, u)} {mparity(M, W, X, o, S, n, k, u)} :: mparity(M2, W, X, o, S, n, k, u) == mparity(M, W, X, o, S, n, k, u)
  induction n
  noaxiom
lemma mparity_zero(M ints, W ints, X ints, o int, S (Array Int (Array Int Int)), k int, u int)
  ensures !mparity(M, W, X, o, S, 0, k, u)
  trigger mparity(M, W, X, o, S, 0, k, u)
lemma mparity_step(M ints, W ints, X ints, o int, S (Array Int (Array Int Int)), n int)
  requires n >= 1
  ensures forall k int, u int {mparity(M, W, X, o, S, n, k, u)} :: mparity(M, W, X, o, S, n, k, u) == xor(mparity(M, W, X, o, S, n - 1, k, u), hbit(S[X[o + W[M[n - 1]]]][k], u))
  noaxiom
logic flt_lt(Flt, Flt) bool
logic flt_le(Flt, Flt) bool
logic i2f(int) Flt
logic f2i_int(Flt) int
assume converting a float64 x with 0 <= x < float64(n) to int gives a value in [0, n] (IEEE 754); every other float result is arbitrary
smt
  (assert (forall ((x Flt) (n Int)) (! (=> (and (flt_le flt_zero x) (flt_lt x (i2f n)) (>= n 0)) (and (<= 0 (f2i_int x)) (<= (f2i_int x) n))) :pattern ((f2i_int x) (flt_lt x (i2f n))))))
assume math/rand returns arbitrary values within the documented range
extern math/rand Float64() r
extern math/rand Intn(n) v
  requires positive: n > 0
  ensures 0 <= v && v < n
extern math Log(x) r
extern math Exp(x) r
extern math Floor(x) r
define wh(e) = elems(e.window, "saltedHash")
define wx(e) = elems(e.window, "Transaction")
define wo(e) = off(e.window)
define want(e, deg) = ite(deg > len(e.window), len(e.window), deg)
define ser() = heapof("ldpc.Transaction", "serialized.$el")
define buf(b) = at(b, "*ldpc.codewordBuilder")
// no transaction pointer is left anywhere in the buffer
define clean(b) = forall x int {elems(*b, "Transaction")[x]} :: off(*b) <= x && x < off(*b) + cap(*b) ==> elems(*b, "Transaction")[x] == 0
define apart(b, c) = arr(*b) != arr(*c) || cap(*b) == 0 || cap(*c) == 0
// every pooled buffer is clean and shares no memory with the window or another pooled buffer
define pooled(b, e) = clean(buf(b)) && (arr(*buf(b)) != arr(e.window) || cap(*buf(b)) == 0) && 0 < b && b < alloc()
define poolOK(e) = (forall b int {$cbpool[b]} :: $cbpool[b] ==> pooled(b, e)) && (forall b int, c int {$cbpool[b], $cbpool[c]} :: $cbpool[b] && $cbpool[c] && b != c ==> apart(buf(b), buf(c)))
// the same while the buffer s is in use
define inUse(s, e) = (forall b int {$cbpool[b]} :: $cbpool[b] ==> 0 < b && b < alloc() && b != ref(s) && (arr(*buf(b)) != arr(e.window) || cap(*buf(b)) == 0)) && (forall b int {$cbpool[b]} :: $cbpool[b] ==> apart(buf(b), s)) && (forall b int {$cbpool[b]} :: $cbpool[b] ==> clean(buf(b))) && (forall b int, c int {$cbpool[b], $cbpool[c]} :: $cbpool[b] && $cbpool[c] && b != c ==> apart(buf(b), buf(c)))
define sh(s) = elems(*s, "saltedHash")
define sx(s) = elems(*s, "Transaction")
assume sync.Pool.Get returns what Pool.New makes or an object handed to Put before, to one caller at a time
extern sync Pool.Get@ldpc.codewordBuilderPool(p) r
  modifies $cbpool
  ensures is(r, "*ldpc.codewordBuilder")
  ensures let b := ref(as(r, "*ldpc.codewordBuilder")) :: b != 0 && $cbpool == upd(old($cbpool), b, false) && (old($cbpool[b]) || fresh(as(r, "*ldpc.codewordBuilder")) && cap(*buf(b)) == 0)
extern sync Pool.Put@ldpc.codewordBuilderPool(p, r)
  requires is(r, "*ldpc.codewordBuilder") && as(r, "*ldpc.codewordBuilder") != 0
  requires onceOnly: !$cbpool[ref(as(r, "*ldpc.codewordBuilder"))]
  requires noReference: clean(as(r, "*ldpc.codewordBuilder"))
  modifies $cbpool
  ensures let b := ref(as(r, "*ldpc.codewordBuilder")) :: $cbpool == upd(old($cbpool), b, true)
func codewordBuilderPool.New() r
  ensures fresh: is(r, "*ldpc.codewordBuilder") && fresh(as(r, "*ldpc.codewordBuilder")) && clean(as(r, "*ldpc.codewordBuilder"))
func Encoder.produceCodeword(e, deg) c
  hide members
  requires distinct: forall x int {wh(e)[x]} :: wo(e) <= x && x < wo(e) + len(e.window) ==> $wi[wh(e)[x]] == x - wo(e)
  requires ready: forall x int {wx(e)[x]} :: wo(e) <= x && x < wo(e) + len(e.window) ==> wx(e)[x] != 0
  requires deg >= 0
  requires pool: poolOK(e)
  modifies $cbpool, allelems("ldpc.saltedTransaction"), all("ldpc.codewordBuilder")
  local selected *ldpc.codewordBuilder
  local midx int
  loop 1
    invariant $k <= want(e, deg) && len(*selected) == $k
    invariant (arr(*selected) != arr(e.window) || cap(*selected) == 0)
    invariant forall x int {wh(e)[x]} {wx(e)[x]} :: wo(e) <= x && x < wo(e) + len(e.window) ==> e.window[x - wo(e)] == old(e.window[x - wo(e)])
    invariant forall x int {sx(selected)[x]} :: off(*selected) + len(*selected) <= x && x < off(*selected) + cap(*selected) ==> sx(selected)[x] == 0
    invariant inUse(selected, e)
    invariant forall x int {sh(selected)[x]} {sx(selected)[x]} :: off(*selected) <= x && x < off(*selected) + $k ==> (let i := x - off(*selected) :: (*selected)[i] == old(e.window[i]))
  end
  loop 2
    start noEntryExcluded: midx == want(e, deg) - 1
    invariant len(*selected) == want(e, deg) && midx >= want(e, deg) - 1
    invariant (arr(*selected) != arr(e.window) || cap(*selected) == 0)
    invariant forall x int {wh(e)[x]} {wx(e)[x]} :: wo(e) <= x && x < wo(e) + len(e.window) ==> e.window[x - wo(e)] == old(e.window[x - wo(e)])
    invariant forall x int {sx(selected)[x]} :: off(*selected) + len(*selected) <= x && x < off(*selected) + cap(*selected) ==> sx(selected)[x] == 0
    invariant inUse(selected, e)
    invariant forall x int {sh(selected)[x]} {sx(selected)[x]} :: off(*selected) <= x && x < off(*selected) + len(*selected) ==> (let q := $wi[sh(selected)[x]] :: let i := x - off(*selected) :: 0 <= q && q <= midx && q < len(e.window) && (*selected)[i] == old(e.window[q]))
    invariant forall x int, y int {sh(selected)[x], sh(selected)[y]} :: off(*selected) <= x && x < off(*selected) + len(*selected) && off(*selected) <= y && y < off(*selected) + len(*selected) && sh(selected)[x] == sh(selected)[y] ==> x == y
    decreases len(e.window) - midx
  end
  loop 3
    invariant $k <= want(e, deg) && len(*selected) == want(e, deg)
    invariant len(c.Members) == want(e, deg) && off(c.Members) == 0 && fresh(c.Members)
    invariant (arr(*selected) != arr(e.window) || cap(*selected) == 0)
    invariant forall x int {wh(e)[x]} {wx(e)[x]} :: wo(e) <= x && x < wo(e) + len(e.window) ==> e.window[x - wo(e)] == old(e.window[x - wo(e)])
    invariant forall x int {sx(selected)[x]} :: off(*selected) + len(*selected) <= x && x < off(*selected) + cap(*selected) ==> sx(selected)[x] == 0
    invariant inUse(selected, e)
    invariant forall x int {sh(selected)[x]} :: off(*selected) <= x && x < off(*selected) + len(*selected) ==> (let q := $wi[sh(selected)[x]] :: 0 <= q && q < len(e.window) && sh(selected)[x] == old(e.window[q].saltedHash))
    invariant forall x int {sx(selected)[x]} :: off(*selected) <= x && x < off(*selected) + len(*selected) ==> (let q := $wi[sh(selected)[x]] :: sx(selected)[x] == ite(x < off(*selected) + $k, 0, ref(old(e.window[q].Transaction))))
    invariant forall x int, y int {sh(selected)[x], sh(selected)[y]} :: off(*selected) <= x && x < off(*selected) + len(*selected) && off(*selected) <= y && y < off(*selected) + len(*selected) && sh(selected)[x] == sh(selected)[y] ==> x == y
    invariant forall j int {elems(c.Members, "")[j]} :: 0 <= j && j < $k ==> elems(c.Members, "")[j] == sh(selected)[off(*selected) + j]
    invariant forall k int, u int {hbit(c.Symbol[k], u)} :: 0 <= k && k < 128 && 0 <= u && u < 8 ==> hbit(c.Symbol[k], u) == mparity(elems(c.Members, ""), $wi, old(wx(e)), old(wo(e)), ser(), $k, k, u)
    back mparity_ext(head(elems(c.Members, "")), elems(c.Members, ""), $wi, old(wx(e)), old(wo(e)), ser(), head($k))
    back mparity_step(elems(c.Members, ""), $wi, old(wx(e)), old(wo(e)), ser(), head($k) + 1)
  end
  ensures count: len(c.Members) == old(want(e, deg))
  ensures fromWindow: forall j in c.Members :: let q := $wi[c.Members[j]] :: let h := c.Members[j] :: 0 <= q && q < len(e.window) && h == old(e.window[q].saltedHash)
  ensures distinct: forall i in c.Members, j in c.Members :: c.Members[i] == c.Members[j] ==> i == j
  ensures data: forall k int, u int {hbit(c.Symbol[k], u)} :: 0 <= k && k < 128 && 0 <= u && u < 8 ==> hbit(c.Symbol[k], u) == mparity(elems(c.Members, ""), $wi, old(wx(e)), old(wo(e)), ser(), len(c.Members), k, u)
  ensures window: forall p in e.window :: e.window[p] == old(e.window[p])
  ensures pool: poolOK(e)

assume a degree distribution returns a degree that fits a signed 64-bit integer
ghostvar $deg : Int
extern ldpc DegreeDistribution.Uint64(d) r
  modifies $deg
  ensures 0 <= r && r < 9223372036854775808 && $deg == r
define readyE(e) = forall x int {wx(e)[x]} :: wo(e) <= x && x < wo(e) + len(e.window) ==> wx(e)[x] != 0
func Encoder.ProduceCodeword(e) c
  hide members
  requires distinct: forall x int {wh(e)[x]} :: wo(e) <= x && x < wo(e) + len(e.window) ==> $wi[wh(e)[x]] == x - wo(e)
  requires ready: readyE(e) && e.degreeDist != nil
  requires pool: poolOK(e)
  modifies $cbpool, $deg, allelems("ldpc.saltedTransaction"), all("ldpc.codewordBuilder")
  ensures count: len(c.Members) == ite($deg > len(e.window), len(e.window), $deg)
  ensures fromWindow: forall j in c.Members :: let q := $wi[c.Members[j]] :: let h := c.Members[j] :: 0 <= q && q < len(e.window) && h == old(e.window[q].saltedHash)
  ensures distinct: forall i in c.Members, j in c.Members :: c.Members[i] == c.Members[j] ==> i == j
  ensures data: forall k int, u int {hbit(c.Symbol[k], u)} :: 0 <= k && k < 128 && 0 <= u && u < 8 ==> hbit(c.Symbol[k], u) == mparity(elems(c.Members, ""), $wi, old(wx(e)), old(wo(e)), ser(), len(c.Members), k, u)
  ensures window: forall p in e.window :: e.window[p] == old(e.window[p])
  ensures pool: poolOK(e)
func Encoder.AddTransaction(e, t) r
  hide members
  requires ready: readyE(e) && e.hasher != nil && e.windowSize >= 0 && e.hashes != 0
  requires present: t != 0
  requires pool: poolOK(e)
  modifies e.window, e.window[*], mapof(e.hashes), $hs
  loop 1
    invariant readyE(e) && (arr(e.window) == old(arr(e.window)) || fresh(e.window))
    decreases len(e.window)
  end
  ensures ready: readyE(e)
  ensures pool: poolOK(e)

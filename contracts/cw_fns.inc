func Encoder.produceCodeword(e, deg) c
  hide permdefs
  requires distinct: forall x int {wh(e)[x]} :: wo(e) <= x && x < wo(e) + len(e.window) ==> $wi[wh(e)[x]] == x - wo(e)
  requires deg >= 1 && len(e.window) >= 1
  requires e.r != 0
  modifies e.window[*], e.shuffleHistory, e.shuffleHistory[*], $tc, $draw, $bound
  entry perm_zero()
  loop 1
    invariant len(c.members) == want(e, deg) && off(c.members) == 0 && fresh(c.members)
    invariant $k <= want(e, deg) && len(e.shuffleHistory) == $k
    invariant arr(e.shuffleHistory) == pre(arr(e.shuffleHistory)) || fresh(e.shuffleHistory)
    invariant forall x int {hist(e)[x]} :: off(e.shuffleHistory) <= x && x < off(e.shuffleHistory) + $k ==> x - off(e.shuffleHistory) <= hist(e)[x] && hist(e)[x] < len(e.window)
    invariant forall p int {perm(hist(e), off(e.shuffleHistory), $k, p)} :: 0 <= p && p < len(e.window) ==> let q := perm(hist(e), off(e.shuffleHistory), $k, p) :: 0 <= q && q < len(e.window) && e.window[p] == old(e.window[q])
    invariant forall j int {memb(c)[j]} :: 0 <= j && j < $k ==> $wi[memb(c)[j]] == perm(hist(e), off(e.shuffleHistory), $k, j) && (let q := $wi[memb(c)[j]] :: let h := memb(c)[j] :: 0 <= q && q < len(e.window) && h == old(e.window[q].saltedHash))
    invariant (c.symbol == 0 || fresh(c.symbol)) && (forall v int {$tc[v]} :: !fresh(v) ==> $tc[v] == old($tc[v]))
    invariant forall b int {tbit(con(c.symbol), b)} :: tbit(con(c.symbol), b) == mbits(memb(c), $wi, old(wd(e)), old(wo(e)), old($tc), $k, b)
    start mbits_zero(memb(c), $wi, wd(e), wo(e), $tc)
    back perm_ext(head(hist(e)), hist(e), head(off(e.shuffleHistory)), off(e.shuffleHistory), head($k))
    back perm_step(hist(e), off(e.shuffleHistory), head($k) + 1)
    back everyRemaining: $bound == len(e.window) - head($k) && memb(c)[head($k)] == head(wh(e))[wo(e) + head($k) + $draw]
    back drawn: hist(e)[off(e.shuffleHistory) + head($k)] == head($k) + $draw
    back kept: forall j int {perm(hist(e), off(e.shuffleHistory), head($k) + 1, j)} :: 0 <= j && j < head($k) ==> perm(hist(e), off(e.shuffleHistory), head($k) + 1, j) == head(perm(hist(e), off(e.shuffleHistory), $k, j))
    back next: perm(hist(e), off(e.shuffleHistory), head($k) + 1, head($k)) == perm(hist(e), off(e.shuffleHistory), head($k), head($k) + $draw)
    back let q := perm(hist(e), off(e.shuffleHistory), head($k), head($k) + $draw) :: 0 <= q && q < len(e.window) && memb(c)[head($k)] == old(wh(e))[old(wo(e)) + q]
    back lastMember: $wi[memb(c)[head($k)]] == perm(hist(e), off(e.shuffleHistory), head($k), head($k) + $draw)
    back sameData: head(wd(e))[wo(e) + head($k) + $draw] == old(wd(e))[old(wo(e)) + $wi[memb(c)[head($k)]]]
    back old: !fresh(old(wd(e))[old(wo(e)) + $wi[memb(c)[head($k)]]])
    back sum: let d := old(wd(e))[old(wo(e)) + $wi[memb(c)[head($k)]]] :: forall b int {tbit(con(c.symbol), b)} :: tbit(con(c.symbol), b) == xor(tbit(head(con(c.symbol)), b), tbit(cont(old($tc), d), b))
    back mbits_ext(head(memb(c)), memb(c), $wi, old(wd(e)), old(wo(e)), old($tc), head($k))
    back mbits_step(memb(c), $wi, old(wd(e)), old(wo(e)), old($tc), head($k) + 1)
  end
  loop 2
    invariant $k <= len(c.members)
    invariant forall p int {perm(hist(e), off(e.shuffleHistory), len(c.members) - $k, p)} :: 0 <= p && p < len(e.window) ==> let q := perm(hist(e), off(e.shuffleHistory), len(c.members) - $k, p) :: 0 <= q && q < len(e.window) && e.window[p] == old(e.window[q])
    back perm_back(hist(e), off(e.shuffleHistory), len(c.members) - head($k))
    exit perm_zero()
    exit $k == len(c.members)
    exit forall p int {perm(hist(e), off(e.shuffleHistory), 0, p)} :: 0 <= p && p < len(e.window) ==> perm(hist(e), off(e.shuffleHistory), 0, p) == p && e.window[p] == old(e.window[p])
    exit forall x int {wh(e)[x]} :: wo(e) <= x && x < wo(e) + len(e.window) ==> perm(hist(e), off(e.shuffleHistory), 0, x - wo(e)) == x - wo(e) && e.window[x - wo(e)] == old(e.window[x - wo(e)])
    exit perm_inj(hist(e), off(e.shuffleHistory), len(c.members))
  end
  ensures count: len(c.members) == old(want(e, deg))
  ensures fromWindow: forall j in c.members :: let q := $wi[c.members[j]] :: let h := c.members[j] :: 0 <= q && q < len(e.window) && h == old(e.window[q].saltedHash)
  ensures distinct: forall i in c.members, j in c.members :: c.members[i] == c.members[j] ==> i == j
  ensures data: forall b int {tbit(con(c.symbol), b)} :: tbit(con(c.symbol), b) == mbits(memb(c), $wi, old(wd(e)), old(wo(e)), old($tc), len(c.members), b)
  ensures window: forall p in e.window :: e.window[p] == old(e.window[p])
  ensures entries: forall v int {$tc[v]} :: !fresh(v) ==> $tc[v] == old($tc[v])
func Encoder.ProduceCodeword(e) c
  hide permdefs
  requires distinct: forall x int {wh(e)[x]} :: wo(e) <= x && x < wo(e) + len(e.window) ==> $wi[wh(e)[x]] == x - wo(e)
  requires len(e.window) >= 1
  requires e.r != 0 && e.degreeDist != nil
  modifies e.window[*], e.shuffleHistory, e.shuffleHistory[*], $tc, $draw, $bound, $deg
  ensures count: len(c.members) == ite($deg > len(e.window), len(e.window), $deg)
  ensures fromWindow: forall j in c.members :: let q := $wi[c.members[j]] :: let h := c.members[j] :: 0 <= q && q < len(e.window) && h == old(e.window[q].saltedHash)
  ensures distinct: forall i in c.members, j in c.members :: c.members[i] == c.members[j] ==> i == j
  ensures data: forall b int {tbit(con(c.symbol), b)} :: tbit(con(c.symbol), b) == mbits(memb(c), $wi, old(wd(e)), old(wo(e)), old($tc), len(c.members), b)
  ensures window: forall p in e.window :: e.window[p] == old(e.window[p])
  ensures entries: forall v int {$tc[v]} :: !fresh(v) ==> $tc[v] == old($tc[v])

func Encoder.Reset(e, dist, ws)
  requires encW(e)
  requires ws >= 0
  modifies e.window, e.windowSize, e.degreeDist, e.hashes, mapof(e.hashes)
  loop 1
    invariant forall v int {dom(e.hashes)[v]} :: dom(e.hashes)[v] <==> pre(dom(e.hashes)[v]) && !$visited[v]
  end
  ensures emptied: len(e.window) == 0
  ensures forgotten: forall v int {dom(e.hashes)[v]} :: !dom(e.hashes)[v]
  ensures state: encW(e)
  ensures params: e.windowSize == ws && e.degreeDist == dist

// the window is the old one followed by the new entry, without the first k entries
define cut(e) = ite(len(e.window) + 1 > e.windowSize, len(e.window) + 1 - e.windowSize, 0)
func Encoder.AddTransaction(e, t) r
  requires encW(e)
  requires ready: present(t) && e.hasher != nil && e.windowSize >= 0
  modifies e.window, e.window[*], mapof(e.hashes), $hs
  loop 1
    invariant len(e.window) <= pre(len(e.window)) && wo(e) == pre(wo(e)) + pre(len(e.window)) - len(e.window)
    invariant arr(e.window) == pre(arr(e.window))
    invariant len(e.window) >= e.windowSize || len(e.window) == pre(len(e.window))
    invariant forall v int {dom(e.hashes)[v]} {inWindow(e, v)} :: inWindow(e, v) == b2i(dom(e.hashes)[v])
    start occ_ext(old(wh(e)), wh(e), old(wo(e)), old(len(e.window)), wo(e))
    start forall v int {inWindow(e, v)} :: inWindow(e, v) == old(inWindow(e, v)) + ite(v == wh(e)[wo(e) + len(e.window) - 1], 1, 0)
    back occ_front(head(wh(e)), head(wo(e)), head(wo(e)) + head(len(e.window)))
    decreases len(e.window)
  end
  ensures refused: r == !old(dom(e.hashes)[keyed(e.hasher, t.hash)])
  ensures unchanged: !r ==> e.window == old(e.window) && (forall v int {dom(e.hashes)[v]} :: dom(e.hashes)[v] == old(dom(e.hashes)[v]))
  ensures size: r ==> len(e.window) == old(len(e.window)) + 1 - old(cut(e))
  ensures kept: r ==> (forall i in e.window :: i < len(e.window) - 1 ==> e.window[i] == old(e.window[i + cut(e)]))
  ensures last: r && len(e.window) > 0 ==> e.window[len(e.window) - 1].saltedHash == keyed(e.hasher, old(t.hash)) && e.window[len(e.window) - 1].Transaction == old(t)
  ensures state: encW(e)

// C03: the decoder only reports true members of the set difference
define dirtyTrack(c, was) = true
define dirtyList(d) = true
define dirtyListOld(d) = true
define tracked(d, didx) = true
define progress(d, k0) = true
define stable(d) = true
define taken(d, didx) = true
define listing(d, k0) = true
define settled(d, k0) = true
include riblt_dec.inc

// bookkeeping is the subject of C04; nothing is needed here
lemma pnum_point(D bools, A bools, B bools, D2 bools, A2 bools, B2 bools, n int, k0 int)
  ensures true
  noaxiom
lemma pnum_ext(D bools, D2 bools, A bools, B bools, n int)
  ensures true
  noaxiom

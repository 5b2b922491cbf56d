// the index mapping of one symbol
load riblt
package riblt

logic nprng(int) int
logic nidx(int, int) int
// MaxInt64
define maxidx() = 9223372036854775807

func randomMapping.nextIndex(s) r
  modifies s.prng, s.lastIdx
  functional s.prng => s.prng
  functional s.prng, s.lastIdx => s.lastIdx, r
  defines s.prng == nprng(old(s.prng)) && s.lastIdx == nidx(old(s.prng), old(s.lastIdx))
  ensures advances: old(s.lastIdx) < maxidx() ==> s.lastIdx > old(s.lastIdx)
  ensures validIndex: s.lastIdx <= maxidx()
  ensures returnsIt: r == s.lastIdx

// onpath(h, p, l): generator state p at index l is reached from the start (h, 0) of hash h
logic onpath(int, int, int) bool
smt
  (assert (forall ((h Int)) (! (onpath h h 0) :pattern ((onpath h h 0)))))
  (assert (forall ((h Int) (p Int) (l Int)) (! (=> (onpath h p l) (onpath h (nprng p) (nidx p l))) :pattern ((onpath h p l) (nidx p l)))))

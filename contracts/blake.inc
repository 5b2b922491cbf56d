logic blakeEmpty() int
logic digestByte(int, int) int
assume blake2b: every hasher made by New512(nil) starts from the same state after Reset; Sum(b) appends the 64 digest bytes of the bytes written since the last Reset after b, in place when the capacity suffices, and changes nothing else; New512(nil) never fails
extern hash Hash.Reset(h)
  modifies $hs
  ensures $hs == upd(old($hs), h, hempty(h))
extern hash Hash.Write(h, b) n, err
  modifies $hs
  ensures $hs == upd(old($hs), h, habsorb(old($hs[h]), bytesOf(elems(b, ""), off(b), len(b))))
extern hash Hash.Sum(h, b) r
  requires cap(b) - len(b) >= 64
  modifies b[*]
  ensures forall j int {elems(b, "")[j]} :: elems(b, "")[j] == ite(off(b) + len(b) <= j && j < off(b) + len(b) + 64, digestByte($hs[h], j - off(b) - len(b)), old(elems(b, "")[j]))
extern golang.org/x/crypto/blake2b New512(key) h, err
  ensures h != nil && hempty(h) == blakeEmpty() && is(h, "hash.Hash")
assume sync.Pool.Get returns what Pool.New makes or an object handed to Put before
extern sync Pool.Get@ldpc.hasherPool(p) r
  ensures r != nil && hempty(r) == blakeEmpty() && is(r, "hash.Hash")
extern sync Pool.Put@ldpc.hasherPool(p, h)
  requires pooled: h != nil && hempty(h) == blakeEmpty() && is(h, "hash.Hash")
package ldpc
func hasherPool.New() r
  modifies $hs
  ensures pooled: r != nil && hempty(r) == blakeEmpty() && is(r, "hash.Hash")
func Transaction.UnmarshalBinary(t, data) err
  modifies t.serialized, t.hash, $hs
  ensures exactSize: err == nil <==> len(data) == 128
  ensures untouched: len(data) != 128 ==> t.serialized == old(t.serialized) && t.hash == old(t.hash)
  ensures reported: len(data) != 128 ==> is(err, "DataSizeError") && as(err, "DataSizeError").length == len(data)
  ensures stored: len(data) == 128 ==> (forall k int {t.serialized[k]} :: 0 <= k && k < 128 ==> t.serialized[k] == old(data[k]))
  ensures hashed: len(data) == 128 ==> (forall k int {t.hash[k]} :: 0 <= k && k < 64 ==> t.hash[k] == digestByte(habsorb(blakeEmpty(), bytesOf(t.serialized, 0, 128)), k))
func Transaction.Serialized(t) r
  modifies
  ensures all: len(r) == 128 && (forall k int {r[k]} :: 0 <= k && k < 128 ==> r[k] == t.serialized[k])

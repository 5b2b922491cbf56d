// keyed hashing: the state of a hasher is the sequence of bytes absorbed since its last reset
logic hempty(Iface) int
logic habsorb(int, int) int
logic hsum(int) int
logic bytesOf(ints, int, int) int
ghostvar $hs : (Array Iface Int)
assume a hasher's Sum64 is a function of its key and of the bytes written since its last Reset; Write and Sum64 change nothing else (hash.Hash64, dchest/siphash)
extern hash Hash64.Reset(h)
  modifies $hs
  ensures $hs == upd(old($hs), h, hempty(h))
extern hash Hash64.Write(h, b) n, err
  modifies $hs
  ensures $hs == upd(old($hs), h, habsorb(old($hs[h]), bytesOf(elems(b, ""), off(b), len(b))))
extern hash Hash64.Sum64(h) r
  ensures r == hsum($hs[h])
  ensures 0 <= r
define keyed(h, hashBytes) = u32(hsum(habsorb(hempty(h), bytesOf(elems(hashBytes, ""), off(hashBytes), len(hashBytes)))))
logic hkey(int) int
extern github.com/dchest/siphash New(key) h
  ensures h != nil
  ensures hempty(h) == hkey(bytesOf(elems(key, ""), off(key), len(key)))

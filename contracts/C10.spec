// C10: fountain decoders peel to the fixpoint and report decoded codewords truthfully
load lt iblt
define HONEST() = false
define OUT() = false
define RELEASED() = true
define MEM() = false
define honest(tx, d) = HONEST() && (forall b int {tbit(con(d), b)} {hb(tx.saltedHash, b)} :: tbit(con(d), b) == hb(tx.saltedHash, b))
include pd_defs.inc
include pd_fns.inc for lt
include pd_fns.inc for iblt
package lt
func Decoder.HasDecoded(p, tx) r
  requires p.hasher != nil
  modifies $hs
  ensures r == rdom(p)[keyed(p.hasher, old(tx.hash))]

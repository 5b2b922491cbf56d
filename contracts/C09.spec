// C09: fountain decoders only output transactions that were really encoded
load lt iblt
logic HONEST() bool
define OUT() = true
define RELEASED() = false
define MEM() = false
define honest(tx, d) = HONEST() && (forall b int {tbit(con(d), b)} {hb(tx.saltedHash, b)} :: tbit(con(d), b) == hb(tx.saltedHash, b))
include pd_defs.inc
include pd_fns.inc for lt
include pd_fns.inc for iblt

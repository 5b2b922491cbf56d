// C11: fountain decoders never crash, leak links or exceed their memory bound
load lt iblt
define HONEST() = false
define OUT() = false
define RELEASED() = false
define MEM() = true
define honest(tx, d) = HONEST() && (forall b int {tbit(con(d), b)} {hb(tx.saltedHash, b)} :: tbit(con(d), b) == hb(tx.saltedHash, b))
include pd_defs.inc
include pd_fns.inc for lt
include pd_fns.inc for iblt

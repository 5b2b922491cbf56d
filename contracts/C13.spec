// C13: the byte-oriented decoder is sound, peels to the fixpoint and never crashes
load ldpc
logic HONEST() bool
define OUT() = true
define RELEASED() = true
define MEM() = true
define honest(tx, d) = HONEST() && (forall b int {abit(d.serialized, b)} {hb(tx.saltedHash, b)} :: abit(d.serialized, b) == hb(tx.saltedHash, b))
include ld_defs.inc
include ld_fns.inc for ldpc

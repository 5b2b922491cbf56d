// C17: hash shards of the block reconciliation simulator
load newsim riblt
option floats real
option shards
assume in the simulator the control overhead and window sizes are finite numbers; their rounding is ignored
assume shard numbers are at least one (NewShards of zero is a precondition violation) and math/rand's Perm returns a permutation

include riblt_weakdec.inc
include newsim_code.inc

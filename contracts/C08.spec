// C08: every fountain codeword combines distinct window entries of the requested degree
load lt iblt
assume a degree distribution returns a degree of at least 1 that fits a signed 64-bit integer (soliton.Distribution does)
ghostvar $deg : Int
extern lt DegreeDistribution.Uint64(d) r
  modifies $deg
  ensures 1 <= r && r < 9223372036854775808 && $deg == r
extern iblt DegreeDistribution.Uint64(d) r
  modifies $deg
  ensures 1 <= r && r < 9223372036854775808 && $deg == r
include cw_defs.inc
include cw_fns.inc for lt
include cw_fns.inc for iblt

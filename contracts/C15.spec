// C15: transaction bytes round-trip, are size-checked, and XOR is bytewise
load ldpc
include hash.inc
include txdata.inc
include blake.inc

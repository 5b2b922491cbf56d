// C22: set elements handed to the codecs are never modified and outputs are independent
load riblt lt iblt
option partial
assume an execution that panics ends there (that the codecs do not panic is part of C01 to C11)
include own.inc
include hash.inc
include own_riblt.inc
include own_lt.inc for lt
include own_lt.inc for iblt

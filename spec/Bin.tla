-------------------------------- MODULE Bin ---------------------------------
(* Rows of a binary table recorded by a driver: row r (0-based) of `len`     *)
(* little-endian 16-bit words.  Input only: has no TLA+ definition.          *)
EXTENDS Integers, Sequences
ReadU16(file, row, len) == CHOOSE s \in Seq(0..65535) : Len(s) = len
=============================================================================

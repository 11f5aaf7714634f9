-------------------------------- MODULE Tags --------------------------------
(***************************************************************************)
(* Unit tags: 14 bits of index over 18 bits of recycle count.  A tag is     *)
(* written as its two halves of 16 bits, <<low, high>>.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences
Indexes == 0..16383
Recycles == 0..262143
Half == 65536
Pack(i, r) == <<r % Half, 4 * i + r \div Half>>
IndexOf(t) == t[2] \div 4
RecycleOf(t) == (t[2] % 4) * Half + t[1]
=============================================================================

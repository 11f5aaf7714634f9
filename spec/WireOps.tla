------------------------------- MODULE WireOps -------------------------------
(***************************************************************************)
(* The primitive readers as operations on a stream, for both encodings.     *)
(* An operation is a tuple: its name and its arguments.  Running operations *)
(* ends with the first one that fails.                                      *)
(***************************************************************************)
EXTENDS Wire

AlignedOps == {"vlq", "int", "blob", "bitarray", "bool", "fourcc", "tag"}
OpResult(op, bs, p) ==
  CASE op[1] = "vlq"      -> Vlq(bs, p)
    [] op[1] = "int"      -> TaggedInt(bs, p)
    [] op[1] = "blob"     -> TaggedBlob(bs, p)
    [] op[1] = "bitarray" -> TaggedBitArray(bs, p)
    [] op[1] = "bool"     -> TaggedBool(bs, p)
    [] op[1] = "fourcc"   -> TaggedFourCC(bs, p)
    [] op[1] = "tag"      -> IF HasTag(bs, p, op[2]) THEN Ok(Unit, p + 1) ELSE Err
    [] op[1] = "bits"     -> Bits(bs, p, op[2])
    [] op[1] = "pint"     -> PackedInt(bs, p, op[2], op[3])
    [] op[1] = "bbool"    -> BitBool(bs, p)
    [] op[1] = "arr"      -> BitArray(bs, p, op[2])
    [] op[1] = "byte"     -> LET r == BitsSmall(bs, p, 8) IN IF IsOk(r) THEN Ok(NumOf(r.v), r.p) ELSE r
    [] op[1] = "bfourcc"  -> BitArray(bs, p, 32)
    [] op[1] = "align"    -> IF Align(p) <= 8 * Len(bs) THEN Ok(Unit, Align(p)) ELSE Err
    [] op[1] = "null"     -> Ok(Unit, p)

RECURSIVE RunOps(_, _, _, _, _)
RunOps(ops, bs, i, p, acc) ==
  IF i > Len(ops) THEN acc
  ELSE LET r == OpResult(ops[i], bs, p)
       IN IF IsOk(r) THEN RunOps(ops, bs, i + 1, r.p, Append(acc, r)) ELSE Append(acc, r)
=============================================================================

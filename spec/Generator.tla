------------------------------ MODULE Generator ------------------------------
(***************************************************************************)
(* What source has to be generated from a protocol description.             *)
(*                                                                         *)
(* A description is a sequence of declarations                              *)
(*   [p |-> module, last |-> name in it, full |-> its whole name,           *)
(*    rust |-> name of the generated type, t |-> type]                      *)
(* and a type a record with the kind k:                                     *)
(*   bool fourcc null blob text   user (full, rust)   opt (t)               *)
(*   array dynarray (t, b)   int inum bits string (b)   const (full, raw)    *)
(*   struct enum choice (f: sequence of [raw, n, v, t])                     *)
(* b holds bounds: min (text), max, incl (1: the maximum belongs to it) and *)
(* pow (the maximum is 2^pow, or -1).                                       *)
(*                                                                         *)
(* The generated source has two halves, one type of a half for each          *)
(* declaration selected for it.  ByteType and BitType give the layout that   *)
(* its readers have to understand in the terms of Wire.tla, and Shown the    *)
(* value they have to deliver: its type, the fields with their names in the  *)
(* order of the description, and no more than that.                         *)
(***************************************************************************)
EXTENDS Wire

(*-------------------------------- selection -------------------------------*)
ByteTop    == {"SVersion", "SVarUint32", "SMD5", "EObserve"}
ByteGame   == {"CPlayerDetailsArray", "SDetails", "SPlayerDetails", "SThumbnail", "EGameSpeed", "EResultDetails", "SToonNameDetails", "SColor"}
BitTop     == {"SVersion", "SMD5", "SVarUint32", "TUserId", "ELeaveReason", "CToonHandle", "CFilePath", "EObserve", "CUserName", "CClanTag",
               "CUserInitialDataArray", "EReconnectStatus", "TUserCount", "CCommanderHandle", "CMountHandle", "CSkinHandle", "CHeroHandle",
               "TRacePreference", "CArtifactHandle", "TRaceCount", "TRaceId", "SUserInitialData", "CAllowedObserveTypes", "CAllowedRaces",
               "CCacheHandle", "TTeamPreference"}
Begins(s, w) == Len(s) >= Len(w) /\ SubSeq(s, 1, Len(w)) = w
InBytes(d) ==
  CASE d.p = "" -> d.last \in ByteTop
    [] d.p = "NNet.Replay" -> d.last = "SHeader"
    [] d.p = "NNet.Replay.Tracker" -> Begins(d.last, "S") \/ d.last = "EEventId"
    [] d.p = "NNet.Game" -> d.last \in ByteGame
    [] OTHER -> FALSE
InBits(d) ==
  /\ d.t.k # "const"
  /\ CASE d.p = "" -> d.last \in BitTop \/ Begins(d.last, "uint") \/ Begins(d.last, "int")
       [] d.p = "NNet.Replay" -> d.last \in {"SGameUserId", "SInitData"}
       [] d.p = "NNet.Game" -> d.last # "ESenders"
       [] OTHER -> FALSE

(*---------------------------------- widths --------------------------------*)
RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)        \* the bits that the numbers up to n need
Largest(b) == IF b.incl = 1 THEN b.max ELSE b.max - 1
IntWidth(b) == (IF b.pow >= 0 THEN b.pow ELSE BitLen(Largest(b))) + (IF Begins(b.min, "-") THEN 1 ELSE 0)
ListWidth(b) == BitLen(Largest(b))
TextWidth(b) == BitLen(4 * b.max)                            \* a character takes up to four bytes
TagWidth(n) == BitLen(n - 1)                                 \* n variants

(*------------------------------ declarations ------------------------------*)
Fields(t) == SelectSeq(t.f, LAMBDA f : f.t.k # "const")
DeclOf(ds, full) == ds[CHOOSE i \in DOMAIN ds : ds[i].full = full]
(* the structure that a constant of it marks as the content of variant v of the enumeration *)
Marked(ds, full, v) ==
  LET m == {i \in DOMAIN ds : ds[i].p # "" /\ ds[i].t.k = "struct" /\
              \E j \in DOMAIN ds[i].t.f : ds[i].t.f[j].t.k = "const" /\ ds[i].t.f[j].t.full = full /\ ds[i].t.f[j].t.raw = v}
  IN IF m = {} THEN <<>> ELSE <<ds[CHOOSE i \in m : \A j \in m : i <= j]>>

(*---------------------------- byte-aligned half ---------------------------*)
Ranges == [u8 |-> {"NNet.uint6", "NNet.uint8", "NNet.Replay.EReplayType", "NNet.Game.TPlayerId", "NNet.Game.TControlId", "NNet.Game.TTeamId", "NNet.Replay.Tracker.TUIntMiniBits"},
           u32 |-> {"NNet.uint14", "NNet.uint22", "NNet.uint32", "NNet.Game.TDifficulty", "NNet.Game.THandicap"},
           i32 |-> {"NNet.int32", "NNet.Game.TFixedBits"}, i64 |-> {"NNet.int64", "NNet.Game.TColorId"}, u64 |-> {"NNet.uint64"}]
Texts == {"NNet.Replay.CSignature", "NNet.Replay.Tracker.CatalogName", "NNet.Game.CCacheHandle", "NNet.CFilePath", "NNet.CUserName"}
TextLists == {"NNet.Game.CCacheHandles", "NNet.Game.CModPaths"}
PlayerList == "NNet.Game.CPlayerDetailsArray"
RangeOf(full) == {r \in DOMAIN Ranges : full \in Ranges[r]}

RECURSIVE ByteType(_, _, _)
ByteType(ds, full, t) ==
  CASE t.k = "user" -> IF RangeOf(t.full) # {} THEN I(CHOOSE r \in RangeOf(t.full) : TRUE)
                       ELSE IF t.full \in Texts THEN Blob
                       ELSE IF t.full \in TextLists THEN Arr(Blob)
                       ELSE IF t.full = PlayerList THEN Arr(R("GameSPlayerDetails"))
                       ELSE R(t.rust)
    [] t.k = "bool" -> Bool
    [] t.k = "fourcc" -> FourCC
    [] t.k \in {"blob", "text"} -> Blob
    [] t.k = "opt" -> Opt(ByteType(ds, full, t.t))
    [] t.k \in {"array", "dynarray"} -> Arr(ByteType(ds, full, t.t))
    [] t.k = "struct" -> Struct([i \in DOMAIN Fields(t) |-> LET f == Fields(t)[i] IN F(f.v, f.n, ByteType(ds, full, f.t), IF f.t.k = "opt" THEN "opt" ELSE "req")])
    [] t.k = "enum" -> Enum([i \in DOMAIN t.f |-> LET m == Marked(ds, full, t.f[i].raw)
                                                  IN IF m = <<>> THEN V(t.f[i].v, t.f[i].n) ELSE VT(t.f[i].v, t.f[i].n, R(m[1].rust))])
    [] t.k = "choice" -> LET fs == SelectSeq(t.f, LAMBDA f : f.t.k # "null")
                         IN Choice([i \in DOMAIN fs |-> VT(fs[i].v, fs[i].n, ByteType(ds, full, fs[i].t))])

(*------------------------------ bit-packed half ---------------------------*)
RECURSIVE BitType(_, _, _)
BitType(ds, full, t) ==
  CASE t.k = "user" -> R(t.rust)
    [] t.k = "bool" -> BBool
    [] t.k = "fourcc" -> BFourCC
    [] t.k = "null" -> Null
    [] t.k \in {"int", "inum"} -> P(t.b.min, IntWidth(t.b))
    [] t.k = "opt" -> BOpt(BitType(ds, full, t.t))
    [] t.k \in {"array", "dynarray"} -> L(ListWidth(t.b), BitType(ds, full, t.t))
    [] t.k = "bits" -> BitsArr(ListWidth(t.b))
    [] t.k = "string" -> Str(TextWidth(t.b))
    [] t.k = "fix" -> Fix(t.b.max)
    [] t.k = "struct" -> BStruct([i \in DOMAIN Fields(t) |-> G(Fields(t)[i].n, BitType(ds, full, Fields(t)[i].t))])
    [] t.k = "enum" -> BEnum(TagWidth(Len(t.f)), [i \in DOMAIN t.f |-> LET m == Marked(ds, full, t.f[i].raw)
                                                  IN IF m = <<>> THEN V(t.f[i].v, t.f[i].n) ELSE VT(t.f[i].v, t.f[i].n, R(m[1].rust))])
    [] t.k = "choice" -> BEnum(TagWidth(Len(t.f)), [i \in DOMAIN t.f |-> VT(t.f[i].v, t.f[i].n, BitType(ds, full, t.f[i].t))])

Layout(ds, bits) ==
  LET sel == {i \in DOMAIN ds : IF bits THEN InBits(ds[i]) ELSE InBytes(ds[i])}
  IN [r \in {ds[i].rust : i \in sel} |-> LET d == ds[CHOOSE i \in sel : ds[i].rust = r]
                                         IN IF bits THEN BitType(ds, d.full, d.t) ELSE ByteType(ds, d.full, d.t)]

(*------------------------------ shown values ------------------------------*)
(* number <<0, ..>>, truth <<2, b>>, absent <<3>>, list <<4, ..>>,           *)
(* structure <<5, type, <<field, value>>, ..>>, present <<6, v>>, () <<7>>,  *)
(* variant or structure without anything <<8, name>>, variant <<8, name, v>> *)
Numbers(b) == <<4>> \o [i \in 1..(Len(b) - 1) |-> NumOf(b[i + 1])]
RECURSIVE Shown(_, _, _, _), ShownDecl(_, _, _, _)
Shown(ds, bits, t, v) ==
  CASE t.k = "user" ->
         IF bits THEN ShownDecl(ds, bits, DeclOf(ds, t.full), v)
         ELSE IF RangeOf(t.full) # {} THEN v
         ELSE IF t.full \in Texts THEN Numbers(v)
         ELSE IF t.full \in TextLists THEN <<4>> \o [i \in 1..(Len(v) - 1) |-> Numbers(v[i + 1])]
         ELSE IF t.full = PlayerList THEN <<4>> \o [i \in 1..(Len(v) - 1) |-> ShownDecl(ds, bits, DeclOf(ds, "NNet.Game.SPlayerDetails"), v[i + 1])]
         ELSE ShownDecl(ds, bits, DeclOf(ds, t.full), v)
    [] t.k \in {"bool", "int", "inum"} -> v
    [] t.k = "fourcc" -> IF bits THEN Numbers(v) ELSE v
    [] t.k = "null" -> <<7>>
    [] t.k \in {"blob", "text", "bits", "string", "fix"} -> Numbers(v)
    [] t.k = "opt" -> IF v = Unit THEN Unit ELSE <<6, Shown(ds, bits, t.t, v)>>
    [] t.k \in {"array", "dynarray"} -> <<4>> \o [i \in 1..(Len(v) - 1) |-> Shown(ds, bits, t.t, v[i + 1])]
    [] t.k = "choice" -> LET f == t.f[CHOOSE i \in DOMAIN t.f : t.f[i].n = v[2]] IN <<8, f.n, Shown(ds, bits, f.t, v[3])>>
ShownDecl(ds, bits, d, v) ==
  CASE d.t.k = "struct" -> IF Fields(d.t) = <<>> THEN <<8, d.rust>>
                           ELSE <<5, d.rust>> \o [i \in DOMAIN Fields(d.t) |-> LET f == Fields(d.t)[i] IN <<f.n, Shown(ds, bits, f.t, v[2][f.n])>>]
    [] d.t.k = "enum" -> LET f == d.t.f[CHOOSE i \in DOMAIN d.t.f : d.t.f[i].n = v[2]] m == Marked(ds, d.full, f.raw)
                         IN IF m = <<>> THEN <<8, f.n>> ELSE <<8, f.n, ShownDecl(ds, bits, m[1], v[3])>>
    [] d.t.k = "choice" -> Shown(ds, bits, d.t, v)
    [] OTHER -> <<5, d.rust, <<"value", Shown(ds, bits, d.t, v)>>>>
=============================================================================

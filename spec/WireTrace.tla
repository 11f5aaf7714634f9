------------------------------ MODULE WireTrace ------------------------------
(***************************************************************************)
(* Judges what the decoders of the implementation returned for given bytes. *)
(* Every line of the trace is a case: the bytes, the reader and its result. *)
(* Streams are read one event per step: the position, the game loop and the *)
(* number of events passed on are the state.                               *)
(***************************************************************************)
EXTENDS Streams, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES caseNo, pos, gameLoop, eventNo \* case, position in its bytes, loop, events passed on
vars == <<caseNo, pos, gameLoop, eventNo>>

X == Trace[caseNo]
Schema(x) == SchemaOf(x.build)
NextCase == caseNo' = caseNo + 1 /\ pos' = 0 /\ gameLoop' = Zero /\ eventNo' = 0
Bad(what, expected, observed) ==
  PrintT("@BAD " \o ToJson([case |-> caseNo, id |-> X.id, kind |-> X.k, pos |-> pos, event |-> eventNo + 1, what |-> what,
                            why |-> ToString([expected |-> expected, observed |-> observed])]))

(*------------------------------ single values -----------------------------*)
RECURSIVE SameResults(_, _, _)
SameResults(e, o, n) ==          \* up to the first result that nobody can rely on
  IF n > Len(e) THEN Len(o) = Len(e)
  ELSE IF e[n].k = "dontcare" THEN Len(o) >= n /\ o[n].k # "panic"
  ELSE /\ n <= Len(o) /\ o[n].k = e[n].k /\ (e[n].k = "ok" => o[n].p = e[n].p /\ o[n].v = e[n].v)
       /\ SameResults(e, o, n + 1)
JudgePrim ==
  LET e == RunOps(X.ops, X.bs, 1, 0, <<>>)
  IN IF SameResults(e, X.got, 1) THEN TRUE ELSE Bad("operations", e, X.got)

Single(name, Valid(_), Of(_)) ==
  LET r == Dec(Schema(X), R(name), X.bs, 0)
      e == IF IsOk(r) /\ Valid(r.v) THEN [k |-> "ok", v |-> Of(r.v)] ELSE IF r.k = "dontcare" THEN r ELSE Err
  IN IF e.k = "dontcare" /\ X.got.k # "panic" THEN TRUE
     ELSE IF e.k = X.got.k /\ (e.k = "ok" => e.v = X.got.v) THEN TRUE
     ELSE Bad(name, IF e.k = "ok" /\ X.got.k = "ok" THEN {<<n, e.v[2][n]>> : n \in {m \in DOMAIN e.v[2] : m \notin DOMAIN X.got.v[2] \/ e.v[2][m] # X.got.v[2][m]}} ELSE e,
              IF e.k = "ok" /\ X.got.k = "ok" THEN {<<n, X.got.v[2][n]>> : n \in {m \in DOMAIN X.got.v[2] : m \notin DOMAIN e.v[2] \/ e.v[2][m] # X.got.v[2][m]}} ELSE X.got)

(* The reader of only the signature and the version: the beginning of a header with its fields in the usual order. *)
Second(r) == IF IsOk(r) /\ r.p < Len(X.bs) /\ X.bs[r.p + 1] = 2 THEN Dec(Schema(X), R("A_SVersion"), X.bs, r.p + 1) ELSE Err
JudgeShort ==
  LET start == Len(X.bs) > 2 /\ SubSeq(X.bs, 1, 3) = <<5, 18, 0>>
      s == IF start THEN Dec(Schema(X), Blob, X.bs, 3) ELSE Err
      v == IF s.k = "dontcare" THEN s ELSE Second(s)
      e == IF IsOk(v) THEN [k |-> "ok", v |-> [p |-> v.p, v |-> Rec([m_signature |-> s.v, m_version |-> v.v])]] ELSE v
  IN IF e.k = "dontcare" /\ X.got.k # "panic" THEN TRUE
     ELSE IF e.k = X.got.k /\ (e.k = "ok" => e.v = X.got.v) THEN TRUE
     ELSE Bad("signature and version", e, X.got)

(*-------------------------------- streams ---------------------------------*)
Read(x) == CASE x.k \in {"tstep", "tbatch"} -> ReadTracker(Schema(x), x.bs, pos)
             [] x.k \in {"gstep", "gbatch"} -> ReadGame(Schema(x), x.bs, pos)
             [] x.k = "mbatch" -> ReadMessage(Schema(x), x.bs, pos)
Supported(x, e) == CASE x.k \in {"tstep", "tbatch"} -> TrackerSupported(e)
                     [] x.k \in {"gstep", "gbatch"} -> GameSupported(e)
                     [] x.k = "mbatch" -> MessageSupported(e)
Shown(x, r, at) == CASE x.k = "tstep" -> [l |-> at, e |-> TrackerEvent(r.e)]
                     [] x.k = "tbatch" -> [l |-> at, e |-> TrackerEvent(r.e), s |-> NamedStats(r.e)]
                     [] x.k \in {"gstep", "gbatch"} -> [l |-> at, u |-> r.user, e |-> GameEvent(r.e)]
                     [] x.k = "mbatch" -> [l |-> at, u |-> r.user, e |-> MessageEvent(r.e)]
Stepwise(x) == x.k \in {"tstep", "gstep"}
Units(x) == IF x.k \in {"tstep", "tbatch"} THEN Len(x.bs) ELSE 8 * Len(x.bs)

StreamStep ==
  IF X.got.k = "panic" THEN Bad("panic", "events or an error", X.got.m) /\ NextCase
  ELSE IF pos = Units(X) /\ (Stepwise(X) \/ pos > 0)
  THEN /\ (IF X.got.k = "ok" /\ eventNo = Len(X.got.v) THEN TRUE
           ELSE Bad("end of the stream", eventNo, IF X.got.k = "ok" THEN Len(X.got.v) ELSE X.got))
       /\ NextCase
  ELSE LET r == Read(X)
           at == IF Stepwise(X) THEN NumAdd(gameLoop, r.delta) ELSE r.delta
       IN CASE r.k = "dontcare" -> NextCase
            [] r.k = "err" ->
                 /\ (IF (IF Stepwise(X) THEN X.got.k = "ok" /\ eventNo = Len(X.got.v) ELSE X.got.k = "err") THEN TRUE
                     ELSE Bad("unreadable", IF Stepwise(X) THEN eventNo ELSE "error", IF X.got.k = "ok" THEN Len(X.got.v) ELSE X.got))
                 /\ NextCase
            [] OTHER ->
                 IF ~Supported(X, r.e)
                 THEN /\ pos' = r.p /\ gameLoop' = (IF Stepwise(X) THEN at ELSE Zero) /\ UNCHANGED <<caseNo, eventNo>>
                 ELSE IF X.got.k = "ok" /\ (eventNo >= Len(X.got.v) \/ X.got.v[eventNo + 1] # Shown(X, r, at))
                 THEN Bad("event", Shown(X, r, at), IF eventNo < Len(X.got.v) THEN X.got.v[eventNo + 1] ELSE "no event") /\ NextCase
                 ELSE /\ pos' = r.p /\ eventNo' = eventNo + 1 /\ gameLoop' = (IF Stepwise(X) THEN at ELSE Zero) /\ UNCHANGED caseNo

Init == caseNo = 1 /\ pos = 0 /\ gameLoop = Zero /\ eventNo = 0
Next ==
  /\ caseNo <= Len(Trace)
  /\ CASE X.k = "prim" -> JudgePrim /\ NextCase
       [] X.k = "details" -> Single("A_GameSDetails", DetailsValid, DetailsOf) /\ NextCase
       [] X.k = "init" -> Single("B_ReplaySInitData", InitValid, InitOf) /\ NextCase
       [] X.k = "header" -> Single("A_ReplaySHeader", LAMBDA v : TRUE, HeaderOf) /\ NextCase
       [] X.k = "hshort" -> JudgeShort /\ NextCase
       [] OTHER -> StreamStep
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, caseNo)
Finished == PrintT("@DONE " \o ToString(TLCGet(1) - 1) \o " " \o ToString(Len(Trace)) \o " " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================

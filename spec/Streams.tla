------------------------------- MODULE Streams -------------------------------
(***************************************************************************)
(* One event of each kind of stream, from the bytes to what the library     *)
(* passes on.                                                              *)
(***************************************************************************)
EXTENDS WireOps, Lib

OldestNew == 75690              \* the first build of the newer protocol
SchemaOf(build) == IF build < OldestNew THEN Schema75689 ELSE Schema87702
Delta(v) == v[3]
ReadTracker(S, bytes, at) ==
  LET d == Dec(S, R("A_SVarUint32"), bytes, at)
      e == IF IsOk(d) THEN Dec(S, R("A_ReplayTrackerEEventId"), bytes, d.p) ELSE d
  IN IF IsOk(e) THEN [k |-> "ok", delta |-> Delta(d.v), user |-> Unit, e |-> e.v, p |-> e.p] ELSE e
ReadPacked(S, bytes, at, ids) ==
  LET d == Dec(S, R("B_SVarUint32"), bytes, at)
      u == IF IsOk(d) THEN Dec(S, R("B_ReplaySGameUserId"), bytes, d.p) ELSE d
      e == IF IsOk(u) THEN Dec(S, R(ids), bytes, u.p) ELSE u
  IN IF IsOk(e) THEN [k |-> "ok", delta |-> Delta(d.v), user |-> Fs(u.v).m_user_id, e |-> e.v, p |-> Align(e.p)] ELSE e
ReadGame(S, bytes, at) == ReadPacked(S, bytes, at, "B_GameEEventId")
ReadMessage(S, bytes, at) == ReadPacked(S, bytes, at, "B_GameEMessageId")
=============================================================================

----------------------------- MODULE ExportTrace -----------------------------
(***************************************************************************)
(* Exported table files against the rows that the readable sources should   *)
(* have contributed.  One export run per line: the sources with what the    *)
(* library reads of each in memory, and the rows of the files.              *)
(***************************************************************************)
EXTENDS ExportOps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE caseNo
Cur == Trace[caseNo]
Bad(what, e, o) == PrintT("@BAD " \o ToJson([case |-> caseNo, id |-> Cur.id, props |-> <<"C18">>, what |-> what, why |-> ToString([expected |-> e, observed |-> o])])) /\ FALSE

(*------------------------------- the sources ------------------------------*)
KindOf(k) == Cur.kinds[Cur.order[k]]
Gone == {"gone", "garbage", "void"}
EventsReadable(kind) == kind \notin Gone \cup {"notracker", "nogame", "nodetails"}
PlayersReadable(kind) == kind \notin Gone \cup {"nodetails"}
(* whether the lobby of the file itself can be read *)
Listed(kind) == kind \notin Gone \cup {"noinit"}
Reads == Cur.src
SourceOk(k) ==
  LET r == Reads[k] kind == KindOf(k)
      want == IF Cur.op = "cmd" /\ ~Listed(kind) THEN "err" ELSE "ok"
  IN IF r.k # want THEN Bad("source", <<kind, want>>, r.k)
     ELSE IF want = "err" THEN TRUE
     ELSE IF r.events.k # (IF EventsReadable(kind) THEN "ok" ELSE "err") THEN Bad("events of a source", kind, r.events.k)
     ELSE IF r.players.k # (IF PlayersReadable(kind) THEN "ok" ELSE "err") THEN Bad("players of a source", kind, r.players.k)
     ELSE TRUE
Take(n, s) == IF n >= Len(s) THEN s ELSE SubSeq(s, 1, n)
InVersions(k) == Reads[k].k = "ok" /\ (Cur.min < 0 \/ Reads[k].version >= Cur.min) /\ (Cur.max < 0 \/ Reads[k].version <= Cur.max)
Selected == LET all == [k \in DOMAIN Reads |-> k]
            IN IF Cur.op = "cmd" THEN Take(Cur.take, SelectSeq(all, InVersions)) ELSE all

(*------------------------------- the rows ---------------------------------*)
(* A whole row: all columns but the seconds as they should be, and the seconds those of the loop. *)
Columns(o) == DOMAIN Fs(o)
NoSeconds(r) == Rec(Without(Fs(r), {"ext_replay_seconds"}))
Seconds(r) == LET l == Fs(r).ext_replay_loop IN RunOk(<<l, l, Fs(r).ext_replay_seconds>>)
RowOk(t, e, o) == IF ~Cur.fine THEN e = o
                  ELSE IF t = "details" THEN Columns(e) = Columns(o) /\ e = o
                  ELSE Columns(o) = Columns(e) \cup {"ext_replay_seconds"} /\ NoSeconds(o) = e /\ Seconds(o)
(* The identity of a row; one without is a row of no replay. *)
HasId(o) == ~Cur.fine \/ "ext_fs_id" \in Columns(o)
IdOf(o) == IF Cur.fine THEN Fs(o).ext_fs_id ELSE o[1]
Expect(t, k) ==
  LET r == Reads[k] IN
  IF ~Cur.fine THEN r.solo[t]
  ELSE IF t = "details" THEN IF r.players.k = "ok" THEN LET ps == SelectSeq(r.players.v, Storable) IN [i \in DOMAIN ps |-> DetailsRow(ps[i])] ELSE <<>>
  ELSE IF r.events.k = "ok" THEN EventRows(t, r.events.v, r.id) ELSE <<>>
(* Rows p, p+1, ... are those of e. *)
SameRows(t, e, rows, p) ==
  LET wrong == {i \in DOMAIN e : p + i - 1 > Len(rows) \/ ~RowOk(t, e[i], rows[p + i - 1])}
  IN IF wrong = {} THEN TRUE
     ELSE LET i == CHOOSE i \in wrong : \A j \in wrong : i <= j
          IN IF p + i - 1 > Len(rows) THEN Bad("table " \o t \o ": rows are missing", e[i], "end of the table")
             ELSE Bad("table " \o t \o ": row " \o ToString(p + i - 1), e[i], rows[p + i - 1])
(* One replay after the other, in any order. *)
RECURSIVE Permuted(_, _, _, _, _)
Permuted(t, es, rows, p, todo) ==
  IF p > Len(rows) THEN IF todo = {} THEN TRUE ELSE Bad("table " \o t \o ": replays are missing", todo, "end of the table")
  ELSE LET m == IF HasId(rows[p]) THEN {k \in todo : es[k][1] = IdOf(rows[p])} ELSE {}
       IN IF m = {} THEN Bad("table " \o t \o ": a row of no replay that is left", {es[k][1] : k \in todo}, rows[p])
          ELSE LET k == CHOOSE k \in m : TRUE
               IN SameRows(t, es[k][2], rows, p) /\ Permuted(t, es, rows, p + Len(es[k][2]), todo \ {k})
RECURSIVE Joined(_, _)
Joined(es, k) == IF k > Len(es) THEN <<>> ELSE es[k][2] \o Joined(es, k + 1)
TableOk(t) ==
  LET f == Cur.got.tables[t]
      sel == Selected
      es == [k \in DOMAIN sel |-> <<Reads[sel[k]].id, Expect(t, sel[k])>>]
  IN IF f.k # "ok" THEN Bad("table " \o t \o " cannot be read back", "rows", f.m)
     ELSE IF Cur.serial \/ t = "details"
          THEN LET all == Joined(es, 1)
               IN IF Len(all) < Len(f.v) THEN Bad("table " \o t \o ": too many rows", Len(all), Len(f.v)) ELSE SameRows(t, all, f.v, 1)
          ELSE Permuted(t, es, f.v, 1, {k \in DOMAIN es : es[k][2] # <<>>})

Judge ==
  IF ~\A k \in DOMAIN Reads : SourceOk(k) THEN FALSE
  ELSE IF Cur.op = "cmd" /\ Selected = <<>>
       THEN IF Cur.got.k = "ok" THEN Bad("no file is selected", "a refusal", "tables") ELSE TRUE
  ELSE IF Cur.got.k # "ok" THEN Bad("export", "tables", Cur.got)
  ELSE IF Cur.got.files # Cardinality(DOMAIN Cur.got.tables) THEN Bad("files", DOMAIN Cur.got.tables, Cur.got.files)
  ELSE \A t \in DOMAIN Cur.got.tables : IF TableOk(t) THEN TRUE ELSE TRUE
Init == caseNo = 1
Next == caseNo <= Len(Trace) /\ caseNo' = caseNo + 1 /\ (IF Judge THEN TRUE ELSE TRUE)
Spec == Init /\ [][Next]_caseNo
Progress == TLCSet(1, caseNo)
Finished == PrintT("@DONE " \o ToString(TLCGet(1) - 1) \o " " \o ToString(Len(Trace)) \o " " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================

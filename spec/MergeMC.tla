------------------------------- MODULE MergeMC -------------------------------
(***************************************************************************)
(* Two event streams and the iterator that merges them, for every pair of   *)
(* short streams.  An event is a delta and a kind: one that is passed on,   *)
(* one that is skipped, or one that cannot be read and so ends its stream.  *)
(* The order, completeness and clock properties of C01 and C02 are checked  *)
(* here as invariants; every finished behaviour is printed and replayed in  *)
(* the implementation with streams of these shapes.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Deep == IOEnv.DEEP = "1"
MaxLen == IF Deep THEN 3 ELSE 2
Deltas == IF Deep THEN 0..1 ELSE 0..2
Kinds == {"ok", "skip", "bad"}
Symbols == [d : Deltas, k : Kinds]
(* Nothing is read behind an unreadable event: one event there is enough. *)
WellEnded(s) == \A i \in DOMAIN s : s[i].k = "bad" => i >= Len(s) - 1 /\ (i < Len(s) => s[Len(s)].k = "ok" /\ s[Len(s)].d = 0)
Streams == UNION {{s \in [1..n -> Symbols] : WellEnded(s)} : n \in 0..MaxLen}

VARIABLES ts, gs,        \* the streams
          ti, gi,        \* events read of each
          tl, gl,        \* clocks
          th, gh,        \* look-ahead: <<>>, <<loop, number>>
          out            \* what was returned: <<stream, loop, number>>
vars == <<ts, gs, ti, gi, tl, gl, th, gh, out>>

Init == ts \in Streams /\ gs \in Streams /\ ti = 0 /\ gi = 0 /\ tl = 0 /\ gl = 0 /\ th = <<>> /\ gh = <<>> /\ out = <<>>
Dead(s, i) == IF i >= Len(s) THEN TRUE ELSE s[i + 1].k = "bad"
FillT == /\ th = <<>> /\ ~Dead(ts, ti)
         /\ ti' = ti + 1 /\ tl' = tl + ts[ti + 1].d
         /\ th' = IF ts[ti + 1].k = "ok" THEN <<tl + ts[ti + 1].d, ti + 1>> ELSE <<>>
         /\ UNCHANGED <<ts, gs, gi, gl, gh, out>>
FillG == /\ gh = <<>> /\ ~Dead(gs, gi)
         /\ (th # <<>> \/ Dead(ts, ti))             \* the tracker look-ahead is filled first
         /\ gi' = gi + 1 /\ gl' = gl + gs[gi + 1].d
         /\ gh' = IF gs[gi + 1].k = "ok" THEN <<gl + gs[gi + 1].d, gi + 1>> ELSE <<>>
         /\ UNCHANGED <<ts, gs, ti, tl, th, out>>
Ready == (th # <<>> \/ Dead(ts, ti)) /\ (gh # <<>> \/ Dead(gs, gi))
Emit == /\ Ready /\ (th # <<>> \/ gh # <<>>)
        /\ IF th # <<>> /\ (gh = <<>> \/ th[1] <= gh[1])
           THEN out' = Append(out, <<"T", th[1], th[2]>>) /\ th' = <<>> /\ gh' = gh
           ELSE out' = Append(out, <<"G", gh[1], gh[2]>>) /\ gh' = <<>> /\ th' = th
        /\ UNCHANGED <<ts, gs, ti, gi, tl, gl>>
Next == FillT \/ FillG \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == Ready /\ th = <<>> /\ gh = <<>>

(*------------------------------- properties -------------------------------*)
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n].d + Sum(s, n - 1)
Ordered == \A i, j \in DOMAIN out : i < j => out[i][2] <= out[j][2]
TrackerWins == \A i, j \in DOMAIN out : i < j /\ out[i][1] = "G" /\ out[j][1] = "T" => out[i][2] < out[j][2]
Clocks == \A i \in DOMAIN out : out[i][2] = Sum(IF out[i][1] = "T" THEN ts ELSE gs, out[i][3])
(* the events of a stream that are passed on, by number *)
Live(s) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i].k = "ok" /\ \A j \in 1..i : s[j].k # "bad")
Of(k) == LET p == SelectSeq(out, LAMBDA o : o[1] = k) IN [i \in DOMAIN p |-> p[i][3]]
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
OwnOrder == IsPrefixOf(Of("T"), Live(ts)) /\ IsPrefixOf(Of("G"), Live(gs))
Complete == Done => Of("T") = Live(ts) /\ Of("G") = Live(gs)
Ends == <>Done
Vector == Done => PrintT("@VEC " \o ToJson([t |-> ts, g |-> gs, out |-> out]))
=============================================================================

-------------------------------- MODULE SaveMC --------------------------------
(***************************************************************************)
(* The merging iterator next to a twin that is saved and restored between   *)
(* any two calls.  The whole of an iterator is the record made by Fresh; a   *)
(* save that forgets the part Omitted must show: with Omitted = "none" both  *)
(* return the same for all short streams, and for every other value TLC has  *)
(* to find the streams and the moment where they differ.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Omitted == IOEnv.OMIT
Deep == IOEnv.DEEP = "1"
Symbols == [d : 0..1, k : {"ok", "skip"}] \cup [d : {0}, k : {"bad"}]
Streams == UNION {[1..n -> Symbols] : n \in 0..(IF Deep THEN 3 ELSE 2)}
Parts == {"ti", "gi", "tl", "gl", "th", "gh", "left"}
Limits == {-1, 1, 2}          \* at most so many items; -1: no limit

VARIABLES ts, gs, max, it, twin, out, tout, saves, n
vars == <<ts, gs, max, it, twin, out, tout, saves, n>>
Fresh(m) == [ti |-> 0, gi |-> 0, tl |-> 0, gl |-> 0, th |-> <<>>, gh |-> <<>>, left |-> m]
Init == /\ ts \in Streams /\ gs \in Streams /\ max \in Limits
        /\ it = Fresh(max) /\ twin = Fresh(max) /\ out = <<>> /\ tout = <<>> /\ saves = <<>> /\ n = 0

(* the look-ahead of a stream: the next event that is passed on *)
RECURSIVE Fill(_, _, _)
Fill(s, i, l) == IF i >= Len(s) THEN <<i, l, <<>>>>
                 ELSE IF s[i + 1].k = "bad" THEN <<i, l, <<>>>>
                 ELSE IF s[i + 1].k = "ok" THEN <<i + 1, l + s[i + 1].d, <<l + s[i + 1].d, i + 1>>>>
                 ELSE Fill(s, i + 1, l + s[i + 1].d)
Filled(x) == LET t == IF x.th = <<>> THEN Fill(ts, x.ti, x.tl) ELSE <<x.ti, x.tl, x.th>>
                 g == IF x.gh = <<>> THEN Fill(gs, x.gi, x.gl) ELSE <<x.gi, x.gl, x.gh>>
             IN [x EXCEPT !.ti = t[1], !.tl = t[2], !.th = t[3], !.gi = g[1], !.gl = g[2], !.gh = g[3]]
(* one call: what is returned (<<>> or <<stream, loop, number>>) and the iterator afterwards *)
Call(x) ==
  IF x.left = 0 THEN <<<<>>, x>>
  ELSE LET f == Filled(x)
           left == IF x.left > 0 THEN x.left - 1 ELSE x.left
       IN IF f.th # <<>> /\ (f.gh = <<>> \/ f.th[1] <= f.gh[1]) THEN <<<<"T", f.th[1], f.th[2]>>, [f EXCEPT !.th = <<>>, !.left = left]>>
          ELSE IF f.gh # <<>> THEN <<<<"G", f.gh[1], f.gh[2]>>, [f EXCEPT !.gh = <<>>, !.left = left]>>
          ELSE <<<<>>, f>>
Steps == LET a == Call(it) b == Call(twin)
         IN /\ n < Len(ts) + Len(gs) + 1
            /\ it' = a[2] /\ twin' = b[2] /\ out' = Append(out, a[1]) /\ tout' = Append(tout, b[1]) /\ n' = n + 1
            /\ UNCHANGED <<ts, gs, max, saves>>
Save == /\ Len(saves) < 2 /\ (IF saves = <<>> THEN TRUE ELSE saves[Len(saves)] < n)
        /\ twin' = [p \in Parts |-> IF p = Omitted THEN Fresh(max)[p] ELSE twin[p]]
        /\ saves' = Append(saves, n) /\ UNCHANGED <<ts, gs, max, it, out, tout, n>>
Next == Steps \/ Save
Spec == Init /\ [][Next]_vars
SameItems == tout = out
SameIterator == Omitted = "none" => twin = it
Done == n = Len(ts) + Len(gs) + 1
Vector == (Done /\ saves # <<>>) => PrintT("@VEC " \o ToJson([t |-> ts, g |-> gs, max |-> max, saves |-> saves, out |-> SelectSeq(out, LAMBDA o : o # <<>>)]))
=============================================================================

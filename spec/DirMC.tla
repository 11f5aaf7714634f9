-------------------------------- MODULE DirMC --------------------------------
(***************************************************************************)
(* The scan of a directory tree: a stack of directories being listed, each  *)
(* in an order nobody controls, with what is left of the depth and of the   *)
(* number of files.  Explored for every small tree and every pair of        *)
(* limits; every tree with its limits is printed and built and scanned in   *)
(* the implementation.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Deep == IOEnv.DEEP = "1"
(* A directory is a sequence of entries: replays, other files, directories.  Their order in it means nothing, so only
   sequences in one order are considered. *)
File == {[k |-> "replay", d |-> <<>>], [k |-> "other", d |-> <<>>]}
Rank(e) == IF e.k = "other" THEN 0 ELSE IF e.k = "replay" THEN 1 ELSE 2 + Len(e.d)
Ordered(s) == \A i, j \in DOMAIN s : i < j => Rank(s[i]) <= Rank(s[j])
Trees(n, entries) == {s \in UNION {[1..m -> entries] : m \in 0..n} : Ordered(s)}
Sub(t) == {[k |-> "dir", d |-> s] : s \in t}
Flat == Trees(IF Deep THEN 2 ELSE 2, File)
Two == Trees(IF Deep THEN 3 ELSE 2, File \cup Sub(Flat))
Three == Trees(2, File \cup Sub(Trees(1, File \cup Sub(Flat))))
All == Two \cup Three

VARIABLES root, max, depth,
          stack,      \* frames: path of the directory, entries not yet seen, limit and results of this call
          last,       \* the result of the call that returned last, <<>> if there is none
          done
vars == <<root, max, depth, stack, last, done>>
RECURSIVE At(_, _)
At(t, p) == IF p = <<>> THEN t ELSE At(t[p[1]].d, SubSeq(p, 2, Len(p)))
Frame(p, quota) == [path |-> p, left |-> DOMAIN At(root, p), quota |-> quota, got |-> <<>>]
Init == /\ root \in All /\ max \in 0..(IF Deep THEN 4 ELSE 3) /\ depth \in 0..4
        /\ stack = (IF depth = 0 THEN <<>> ELSE <<Frame(<<>>, max)>>) /\ last = <<>> /\ done = (depth = 0)
Top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
Push(f) == Append(stack, f)
Visit == /\ ~done /\ Top.left # {}
         /\ \E i \in Top.left :
              LET e == At(root, Top.path)[i] seen == [Top EXCEPT !.left = @ \ {i}] here == Append(Top.path, i) IN
              CASE e.k = "other" -> stack' = Append(Rest, seen)
                [] e.k = "replay" -> stack' = Append(Rest, IF Len(Top.got) >= Top.quota THEN [seen EXCEPT !.left = {}]
                                                           ELSE [seen EXCEPT !.got = Append(@, here)])
                [] e.k = "dir" -> stack' = IF depth - Len(stack) = 0 THEN Append(Rest, seen)
                                           ELSE Append(Rest, seen) \o <<Frame(here, Top.quota - Len(Top.got))>>
         /\ UNCHANGED <<root, max, depth, last, done>>
Return == /\ ~done /\ Top.left = {}
          /\ IF Len(stack) = 1 THEN done' = TRUE /\ last' = Top.got /\ stack' = <<>>
             ELSE /\ stack' = LET up == stack[Len(stack) - 1] IN SubSeq(stack, 1, Len(stack) - 2) \o <<[up EXCEPT !.got = @ \o Top.got]>>
                  /\ UNCHANGED <<done, last>>
          /\ UNCHANGED <<root, max, depth>>
Next == Visit \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* the replays of a tree that are at most d levels deep, as paths *)
RECURSIVE Eligible(_, _, _)
Eligible(t, p, d) == IF d = 0 THEN {}
                     ELSE UNION {CASE t[i].k = "replay" -> {Append(p, i)} [] t[i].k = "dir" -> Eligible(t[i].d, Append(p, i), d - 1) [] OTHER -> {} : i \in DOMAIN t}
E0 == Eligible(root, <<>>, depth)
Least(a, b) == IF a < b THEN a ELSE b
Within == \A i \in DOMAIN stack : Len(stack[i].got) <= stack[i].quota
Result == done => /\ {last[i] : i \in DOMAIN last} \subseteq E0
                  /\ Cardinality({last[i] : i \in DOMAIN last}) = Len(last)
                  /\ Len(last) = Least(max, Cardinality(E0))
Ends == <>done
AtStart == IF depth = 0 THEN TRUE ELSE Len(stack) = 1 /\ stack[1] = Frame(<<>>, max)
Vector == AtStart => PrintT("@VEC " \o ToJson([t |-> root, max |-> max, depth |-> depth]))
=============================================================================

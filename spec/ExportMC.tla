------------------------------- MODULE ExportMC -------------------------------
(***************************************************************************)
(* The export of a set of replays into one table file.  Workers take a      *)
(* source each, compute its rows, and write them as one batch into the      *)
(* shared file.  A batch is not written at once, so it is a lock that makes *)
(* batches whole (Locking = FALSE shows what happens without).  Every       *)
(* finished behaviour is printed and its sources and mode replayed in the   *)
(* implementation.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Locking

Deep == IOEnv.DEEP = "1"
Kinds == {"full", "empty", "gone"}        \* has rows, has none, cannot be read
MaxLen == IF Deep THEN 4 ELSE 3
Workers == IF Deep THEN {1, 2, 3} ELSE {1, 2}
Sources == UNION {[1..n -> Kinds] : n \in 0..MaxLen}

VARIABLES src, serial,
          left,       \* sources nobody has taken
          pc,         \* what a worker does: <<"idle">>, <<"read", s>>, <<"have", s>>, <<"half", s>>
          lock,       \* the worker that holds the lock, or 0
          file        \* halves of batches, in file order
vars == <<src, serial, left, pc, lock, file>>

Init == /\ src \in Sources /\ serial \in BOOLEAN /\ left = DOMAIN src /\ pc = [w \in Workers |-> <<"idle">>] /\ lock = 0 /\ file = <<>>
Active == IF serial THEN {1} ELSE Workers
Least(s) == \A t \in left : s <= t
Take(w, s) == /\ pc[w] = <<"idle">> /\ s \in left /\ (serial => Least(s))
              /\ left' = left \ {s} /\ pc' = [pc EXCEPT ![w] = <<"read", s>>]
              /\ UNCHANGED <<src, serial, lock, file>>
Read(w) == /\ pc[w][1] = "read"
           /\ pc' = [pc EXCEPT ![w] = IF src[pc[w][2]] = "full" THEN <<"have", pc[w][2]>> ELSE <<"idle">>]
           /\ UNCHANGED <<src, serial, left, lock, file>>
First(w) == /\ pc[w][1] = "have" /\ (Locking => lock = 0)
            /\ lock' = w /\ file' = Append(file, pc[w][2]) /\ pc' = [pc EXCEPT ![w] = <<"half", pc[w][2]>>]
            /\ UNCHANGED <<src, serial, left>>
Second(w) == /\ pc[w][1] = "half"
             /\ lock' = 0 /\ file' = Append(file, pc[w][2]) /\ pc' = [pc EXCEPT ![w] = <<"idle">>]
             /\ UNCHANGED <<src, serial, left>>
Next == \E w \in Active : (\E s \in left : Take(w, s)) \/ Read(w) \/ First(w) \/ Second(w)
Spec == Init /\ [][Next]_vars /\ \A w \in Workers : WF_vars(w \in Active /\ ((\E s \in left : Take(w, s)) \/ Read(w) \/ First(w) \/ Second(w)))

Done == left = {} /\ \A w \in Workers : pc[w] = <<"idle">>
Full == {s \in DOMAIN src : src[s] = "full"}
(* whole batches: every odd half is followed by its other half *)
Whole == \A i \in DOMAIN file : i % 2 = 1 /\ i < Len(file) => file[i + 1] = file[i]
Batches == [i \in 1..(Len(file) \div 2) |-> file[2 * i - 1]]
Once == \A s \in DOMAIN src : Cardinality({i \in DOMAIN file : file[i] = s}) <= 2
Nothing == \A i \in DOMAIN file : src[file[i]] = "full"
Complete == Done => Len(file) = 2 * Cardinality(Full) /\ {file[i] : i \in DOMAIN file} = Full
InOrder == serial => \A i, j \in DOMAIN file : i < j => file[i] <= file[j]
Exclusive == Locking => Cardinality({w \in Workers : pc[w][1] = "half"}) <= 1
Ends == <>Done
Vector == Done => PrintT("@VEC " \o ToJson([src |-> src, serial |-> serial, order |-> Batches]))
=============================================================================

------------------------------- MODULE TagsMC -------------------------------
(***************************************************************************)
(* Packing loses nothing: checked for every index and every recycle count   *)
(* next to a power of two, and for every recycle count with every index     *)
(* next to a power of two.  (Two pairs with one tag would unpack to one     *)
(* pair, so distinct pairs have distinct tags.)                             *)
(***************************************************************************)
EXTENDS Tags, TLC
VARIABLE i
Edges(n) == {x \in UNION {{2^k - 1, 2^k, 2^k + 1} : k \in 0..18} : x < n} \cup {0}
Init == i = 0
Next == i < 16383 /\ i' = i + 1
Spec == Init /\ [][Next]_i
Back(a, r) == LET t == Pack(a, r) IN IndexOf(t) = a /\ RecycleOf(t) = r /\ t[1] \in 0..65535 /\ t[2] \in 0..65535
RoundTrip == /\ \A r \in Edges(262144) : Back(i, r)
             /\ i \in Edges(16384) => \A r \in Recycles : Back(i, r)
=============================================================================

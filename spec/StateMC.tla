------------------------------ MODULE StateMC ------------------------------
(***************************************************************************)
(* Exhaustive exploration of the replay state machine over small event     *)
(* alphabets.  Each alphabet is one focus; the invariants below hold in    *)
(* every reachable state, and every transition is printed as a path of     *)
(* event numbers so that it can be stepped through the implementation.     *)
(***************************************************************************)
EXTENDS ReplayState, Json, IOUtils

Focus == IOEnv.FOCUS
Depth == atoi(IOEnv.DEPTH)
Emit  == IOEnv.EMIT = "1"

MCBalance ==
  [A |-> [radius |-> <<<<1, 0>>>>, 
          abilities |-> <<[id |-> "Move", index |-> <<1>>, cmds |-> <<[id |-> <<"Go">>, index |-> 0], [id |-> <<>>, index |-> 1]>>],
                          [id |-> "Off", index |-> <<>>, cmds |-> <<[id |-> <<"Never">>, index |-> 0]>>]>>,
          trains |-> <<[id |-> "B", ability |-> <<2>>, index |-> <<0>>]>>,
          builds |-> <<[id |-> "Hut", ability |-> <<2>>, index |-> <<1>>], [id |-> "Inn", ability |-> <<2>>, index |-> <<0>>]>>,
          researches |-> <<[id |-> "Art", ability |-> <<3>>, index |-> <<0>>], [id |-> "Late", ability |-> <<2>>, index |-> <<1>>]>>],
   B |-> [radius |-> <<<<3, -2>>>>, abilities |-> <<>>, trains |-> <<>>, builds |-> <<>>, researches |-> <<>>]]

Users == ("0" :> "Ann" @@ "1" :> "Bob")
Players == (0 :> "Ann" @@ 1 :> "Bob")

(* Events without a loop; the loop of the n-th event of a path is n. *)
Born(ix, name, pid, creator, abil) == [k |-> "born", ix |-> ix, name |-> name, pid |-> pid, x |-> 10 * ix, y |-> 7, creator |-> creator, abil |-> abil]
Ini(ix, name, pid) == [k |-> "init", ix |-> ix, name |-> name, pid |-> pid, x |-> 20 + ix, y |-> 9]
Typ(ix, name) == [k |-> "type", ix |-> ix, name |-> name]
Don(ix) == [k |-> "done", ix |-> ix]
Die(ix, killer) == [k |-> "died", ix |-> ix, killer |-> killer]
Sel(u, g, tags) == [k |-> "seld", u |-> u, g |-> g, tags |-> tags]
Ctl(u, g, op) == [k |-> "ctl", u |-> u, g |-> g, op |-> op]
Setup(pid, uid, slot) == [k |-> "setup", pid |-> pid, uid |-> uid, slot |-> slot]
Upg(pid) == [k |-> "upgrade", pid |-> pid, pname |-> <<>>]
PosE(first, items) == [k |-> "pos", first |-> first, items |-> items]
Cam(u, how, t) == [k |-> "cam", u |-> u, how |-> how, target |-> t]
AbilRec(link, index, data) == [link |-> link, name |-> "", index |-> index, data |-> data]
CmdE(u, abil, data, other) == [k |-> "cmd", u |-> u, flags |-> 256, abil |-> abil, data |-> data, seq |-> 5, other |-> other, group |-> <<2>>]
Pt == [k |-> "point", p |-> <<4096, -2048, 8191>>]
Un(ix) == [k |-> "unit", flags |-> 111, timer |-> 0, tag |-> <<ix, 1>>, link |-> 9, ctl |-> <<1>>, upk |-> <<>>, p |-> <<-1, 8192, 0>>]
NoD == [k |-> "none"]
Tp(u, p) == [k |-> "tp", u |-> u, p |-> p]
Tu(u, ix) == [k |-> "tu", u |-> u, data |-> Un(ix)]

T1 == <<1, 1>>
T1b == <<1, 2>>
T2 == <<2, 1>>

(* All reports of one and two triples, with tails that are not a triple. *)
PosXY == <<<<0, 0>>, <<0, 5>>, <<3, 0>>, <<6, 7>>>>
PosDelta == <<0, 1, 2, -1>>
PosTail == <<<<>>, <<1>>, <<0, 9>>>>
PosTriple(i) == <<PosDelta[(i \div 4) + 1]>> \o PosXY[(i % 4) + 1]
PosAlphabet ==
  [i \in 1..32 |-> PosE(1 + ((i - 1) \div 16), PosTriple((i - 1) % 16) \o PosTail[((i - 1) % 3) + 1])]
  \o [i \in 1..256 |-> PosE(1, PosTriple((i - 1) \div 16) \o PosTriple((i - 1) % 16) \o PosTail[(((i - 1) \div 5) % 3) + 1])]
  \o [i \in 1..64 |-> PosE(0, <<1>> \o PosXY[((i - 1) \div 16) + 1] \o <<1>> \o PosXY[(((i - 1) \div 4) % 4) + 1] \o <<1>> \o PosXY[((i - 1) % 4) + 1])]

Alphabet ==
  CASE Focus = "life" ->     \* registry, life cycle, bindings
         <<Born(1, "A", 1, <<>>, <<>>), Born(1, "B", 2, <<2>>, <<"Morph">>), Ini(1, "A", 1), Ini(1, "B", 2), Don(1), Typ(1, "A"), Typ(1, "B"),
           Die(1, <<>>), Die(1, <<2>>), Die(1, <<1>>), Born(2, "A", 1, <<1>>, <<>>), Die(2, <<1>>), Ini(2, "Drone", 0),
           Setup(1, <<0>>, <<4>>), Setup(2, <<0>>, <<>>), Setup(1, <<1>>, <<1>>), Setup(1, <<7>>, <<>>), Setup(2, <<>>, <<3>>),
           Upg(1), Upg(2), PosE(1, <<0, 3, 4>>), PosE(0, <<1, 1, 2, 1, 6, 5, 0, 9, 9, 1>>)>>
    [] Focus = "groups" ->   \* selection and hotkeys of one user and what dies under them
         <<Born(1, "A", 1, <<>>, <<>>), Born(2, "B", 1, <<>>, <<>>), Die(1, <<2>>), Die(2, <<>>),
           Sel(0, 10, <<T1>>), Sel(0, 10, <<T2, T1>>), Sel(0, 10, <<>>), Sel(0, 10, <<T1b, T2>>), Sel(0, 0, <<T2>>), Sel(0, 9, <<T1, T2, T1>>), Sel(1, 10, <<T1>>), Sel(0, 11, <<T1>>), Sel(5, 10, <<T1>>),
           Ctl(0, 0, "set"), Ctl(0, 0, "append"), Ctl(0, 0, "recall"), Ctl(0, 0, "clear"), Ctl(0, 0, "setsteal"), Ctl(0, 0, "appendsteal"),
           Ctl(0, 9, "set"), Ctl(0, 9, "appendsteal"), Ctl(0, 9, "recall"), Ctl(0, 12, "recall"), Ctl(1, 3, "set"), Ctl(5, 1, "set"), Typ(1, "B")>>
    [] Focus = "marks" ->    \* marks and radius
         <<Born(1, "A", 1, <<>>, <<>>), Ini(2, "B", 1), Don(2), Typ(1, "B"), Typ(1, "A"), Typ(2, "Zzz"), Ini(1, "B", 1), Die(1, <<>>),
           Sel(0, 10, <<T1>>), Sel(0, 10, <<T1, T2>>), Sel(0, 10, <<T1, T1>>), Sel(0, 10, <<>>), Sel(1, 10, <<T2, T1b>>), Sel(1, 10, <<>>), Sel(0, 4, <<T2>>),
           Ctl(0, 4, "recall"), Ctl(0, 4, "set"), Ctl(1, 4, "recall"), Ctl(0, 5, "recall")>>
    [] Focus = "commands" ->
         <<Born(1, "A", 1, <<>>, <<>>), Born(2, "B", 1, <<>>, <<>>), Ini(2, "A", 1), Typ(1, "B"), Typ(1, "A"), Die(2, <<1>>), Die(1, <<>>),
           Sel(0, 10, <<T1>>), Sel(0, 10, <<T1, T2>>), Sel(0, 10, <<T2, T1>>), Sel(0, 10, <<>>), Sel(1, 10, <<T2>>), Sel(1, 2, <<T1>>),
           CmdE(0, <<AbilRec(1, 0, <<>>)>>, Pt, <<>>), CmdE(0, <<AbilRec(2, 0, <<3>>)>>, Un(2), <<T2>>), CmdE(0, <<>>, Un(2), <<>>), CmdE(0, <<AbilRec(2, 1, <<>>)>>, NoD, <<>>),
           CmdE(1, <<AbilRec(3, 0, <<>>)>>, [k |-> "data", v |-> 77], <<>>), CmdE(6, <<AbilRec(1, 1, <<>>)>>, Pt, <<>>), CmdE(0, <<AbilRec(9, 9, <<>>)>>, Un(1), <<>>),
           Tp(0, <<2048, 4096, 0>>), Tp(1, <<0, 1, 2>>), Tp(6, <<1, 1, 1>>), Tu(0, 2), Tu(0, 1), Tu(1, 3), Tu(6, 1),
           Cam(0, "save", <<<<5, 6>>>>), Cam(1, "update", <<>>), Cam(0, "update", <<<<8, 2>>>>), Cam(6, "update", <<<<8, 2>>>>)>>

    [] Focus = "positions" ->  \* position reports of every shape over what is registered, each ending a path
         <<Born(1, "A", 1, <<>>, <<>>), Ini(2, "B", 1), Typ(3, "A"), Die(1, <<>>), Die(2, <<>>), PosE(2, <<>>)>>
           \o PosAlphabet

N == Len(Alphabet)
VARIABLES st, path, last
vars == <<st, path, last>>
AtLoop(ev, n) == ev @@ [loop |-> n]

Init == st = InitState(Players) /\ path = <<>> /\ last = HNone
(* A tracker player id belongs to at most one user of a lobby. *)
WellFormed(ev) == ev.k = "setup" /\ IsSome(ev.uid) =>
                    \A u \in DOMAIN st.pl \ {Get(ev.uid)} : st.pl[u].tpid # Some(ev.pid)
Next == ~(Focus = "positions" /\ path # <<>> /\ path[Len(path)] > 5) /\
        \E i \in {j \in 1..N : WellFormed(Alphabet[j])} :
          LET r == Step(st, AtLoop(Alphabet[i], Len(path) + 1))
          IN st' = r.st /\ path' = Append(path, i) /\ last' = r.hint
Spec == Init /\ [][Next]_vars

(* Loops never decide anything, so states that differ in loops only are one state. *)
View == [units |-> [ix \in DOMAIN st.units |-> [st.units[ix] EXCEPT !.loop = 0, !.il = 0]],
         groups |-> st.groups, cam |-> st.cam, pl |-> st.pl]
Bound == Len(path) < Depth
EmitTransition == IF Emit THEN PrintT("@T " \o ToJson(path')) ELSE TRUE

(* Invariants *)
Registry == RegistryOK(st)
Radius == RadiusOK(st)
GroupShape == GroupsOK(st)
Marked == \A ix \in DOMAIN st.units : st.units[ix].sel => \E u \in DOMAIN st.groups : \E t \in Range(st.groups[u][Active]) : t[1] = ix
Commanded == \A ix \in DOMAIN st.units : IsSome(st.units[ix].cmd.abil) => Get(st.units[ix].cmd.abil).index \in 0..9
NameBound == \A ix \in DOMAIN st.units : IsSome(st.units[ix].pn) => Get(st.units[ix].pn) \in {Players[u] : u \in DOMAIN Players}
(* Action properties: a death leaves no reference, and what a hint names is what is registered. *)
Ev == Alphabet[path'[Len(path')]]
Forgotten == [][ Ev.k = "died" => /\ Ev.ix \notin DOMAIN st'.units
                                  /\ \A u \in DOMAIN st'.groups : \A g \in Groups : \A t \in Range(st'.groups[u][g]) : t[1] # Ev.ix ]_vars
HintTrue == [][ /\ last'.k = "reg" => /\ last'.unit.ix \in DOMAIN st'.units /\ st'.units[last'.unit.ix] = last'.unit
                /\ last'.k \in {"pos", "tp", "tu", "abil", "sel"} =>
                     \A i \in DOMAIN last'.units : last'.units[i].ix \in DOMAIN st'.units /\ st'.units[last'.units[i].ix] = last'.units[i]
                /\ last'.k = "unreg" => /\ last'.killed.ix \notin DOMAIN st'.units
                                        /\ (IsSome(last'.killer) => Get(last'.killer).ix \in DOMAIN st'.units) ]_vars
Frame == [][ /\ (last'.k = "none" => st'.units = st.units \/ Ev.k = "died")
             /\ \A u \in DOMAIN st.groups : st'.groups[u] # st.groups[u] =>
                  Ev.k = "died" \/ (Ev.k \in {"seld", "ctl"} /\ Ev.u = u) ]_vars
ASSUME PrintT("@A " \o ToJson([events |-> Alphabet, new |-> [users |-> Users, balance |-> MCBalance]]))
=============================================================================

----------------------------- MODULE StateTrace -----------------------------
(***************************************************************************)
(* Checks recorded steps of the replay state machine against ReplayState.  *)
(* A "load" line sets the state; an "ev" line carries the event and what   *)
(* the implementation did with it (changed and removed units, users, hint, *)
(* returned event).  The step that the specification takes from the        *)
(* implementation's own previous state has to agree with it in the aspects *)
(* of property Prop; the state then continues from the implementation's    *)
(* result, so that one deviation is reported once and the rest of the      *)
(* trace stays informative.                                                *)
(***************************************************************************)
EXTENDS ReplayState, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
BalanceJson == ndJsonDeserialize(IOEnv.BALANCE)[1]
Prop == IOEnv.PROP

VARIABLES l, st, saved
vars == <<l, st, saved>>

UnitMap(pairs) == [ix \in {pairs[i][1] : i \in DOMAIN pairs} |->
                     pairs[CHOOSE i \in DOMAIN pairs : pairs[i][1] = ix][2]]
ApplyUsers(s, us) ==
  LET U == {us[i].u : i \in DOMAIN us}
      Of(u) == us[CHOOSE i \in DOMAIN us : us[i].u = u]
  IN [units |-> s.units,
      groups |-> [u \in U |-> Of(u).groups], cam |-> [u \in U |-> Of(u).cam], pl |-> [u \in U |-> Of(u).pl]]
Load(x) == ApplyUsers([units |-> UnitMap(x.units)], x.users)
After(x) == LET s == [st EXCEPT !.units = UnitMap(x.ch) @@ Without(st.units, Range(x.rm))]
            IN IF "users" \in DOMAIN x THEN ApplyUsers(s, x.users) ELSE s

(* Which events a property is about: a panic on these is a violation of it as well. *)
Kinds == [C03 |-> {"init", "born", "type", "done", "died", "other"},
          C04 |-> {"seld", "ctl"}, C05 |-> {"seld", "ctl", "type", "init", "born", "done"},
          C06 |-> {"cmd", "tp", "tu"}, C07 |-> {"died"}, C08 |-> {"pos"},
          C09 |-> {"setup", "upgrade", "init", "born"}, C10 |-> {"cam", "other", "type", "born", "init", "died", "seld"}]

Fields == {"ix", "loop", "own", "pn", "name", "pos", "il", "abil", "rad", "col", "sel", "init", "cmd"}
Project(u, F) == [f \in F |-> u[f]]
SameUnits(a, b, F) ==
  /\ DOMAIN a = DOMAIN b
  /\ \A ix \in DOMAIN a : IF a[ix] = b[ix] THEN TRUE ELSE Project(a[ix], F) = Project(b[ix], F)
(* Only what both sides have: existence is C03's business. *)
SameCommon(a, b, F) == \A ix \in DOMAIN a \cap DOMAIN b :
                         IF a[ix] = b[ix] THEN TRUE ELSE Project(a[ix], F) = Project(b[ix], F)

DeadIn(s, ix) == \E u \in DOMAIN s.groups : \E g \in DOMAIN s.groups[u] : \E t \in Range(s.groups[u][g]) : t[1] = ix

(* The units the hint names as its subject. *)
Subjects(h) == CASE h.k = "reg" -> {h.unit.ix}
                 [] h.k \in {"pos", "tp", "tu", "abil", "sel"} -> {h.units[i].ix : i \in DOMAIN h.units}
                 [] h.k = "unreg" -> {h.killed.ix}
                 [] OTHER -> {}

Variant == [reg |-> "Registered", pos |-> "Positions", tp |-> "TargetPoints", tu |-> "TargetUnits", unreg |-> "Unregistered",
            abil |-> "Abilities", sel |-> "Selection", none |-> "None"]
Agrees(x, e, a) ==
  CASE Prop = "C03" -> SameUnits(e.st.units, a.units, {"ix", "name", "own", "pn", "pos", "il", "abil", "init", "loop"})
    [] Prop = "C04" -> e.st.groups = a.groups
    [] Prop = "C05" -> SameCommon(e.st.units, a.units, {"sel", "rad", "col"})
    [] Prop = "C06" -> SameCommon(e.st.units, a.units, {"cmd"}) /\ (x.ev.k \in {"cmd", "tp", "tu"} => e.hint = x.hint)
    [] Prop = "C07" -> x.ev.k = "died" => /\ ~DeadIn(a, x.ev.ix)
                                          /\ e.st.groups = a.groups
                                          /\ e.hint = x.hint
    [] Prop = "C08" -> IF x.ev.k = "pos" THEN e.st = a /\ e.hint = x.hint
                       ELSE TRUE
    [] Prop = "C09" -> /\ e.st.pl = a.pl
                       /\ SameCommon(e.st.units, a.units, {"pn"})
                       /\ (x.ev.k = "upgrade" => e.ev.pname = x.out.pname)
    [] Prop = "C10" -> /\ e.hint = x.hint /\ e.ev = x.out /\ x.rest
                       /\ Variant[x.hint.k] = x.variant
                       /\ (x.ev.k = "other" => st = a)
                       /\ (Subjects(x.hint) = {} => SameUnits(st.units, a.units, Fields \ {"loop"}))
                       /\ e.st.cam = a.cam
                       /\ \A ix \in DOMAIN st.units \cap DOMAIN a.units :
                            st.units[ix] # a.units[ix] => ix \in Subjects(x.hint) \/ e.st.units[ix] = a.units[ix]

Violation(x) ==
  IF "panic" \in DOMAIN x THEN x.ev.k \in Kinds[Prop]
  ELSE LET e == Step(st, x.ev) IN ~Agrees(x, e, After(x))

Why(x) == IF "panic" \in DOMAIN x THEN [panic |-> x.panic]
          ELSE LET e == Step(st, x.ev)
                   a == After(x)
                   D == {ix \in DOMAIN e.st.units \cup DOMAIN a.units :
                           ~(ix \in DOMAIN e.st.units /\ ix \in DOMAIN a.units /\ e.st.units[ix] = a.units[ix])}
               IN [expected |-> [units |-> [ix \in D \cap DOMAIN e.st.units |-> e.st.units[ix]],
                                 groups |-> IF e.st.groups = a.groups THEN "same" ELSE ToString(e.st.groups),
                                 pl |-> IF e.st.pl = a.pl THEN "same" ELSE ToString(e.st.pl),
                                 hint |-> e.hint, ev |-> e.ev],
                   observed |-> [units |-> [ix \in D \cap DOMAIN a.units |-> a.units[ix]],
                                 groups |-> IF e.st.groups = a.groups THEN "same" ELSE ToString(a.groups),
                                 hint |-> x.hint, ev |-> x.out]]

Init == l = 1 /\ saved = <<>> /\ st = [units |-> <<>>, groups |-> <<>>, cam |-> <<>>, pl |-> <<>>]
Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET x == Trace[l] IN
       CASE x.t = "load" -> st' = Load(x) /\ saved' = saved
         [] x.t = "save" -> st' = st /\ saved' = Append(saved, st)
         [] x.t = "restore" -> st' = saved[Len(saved)] /\ saved' = SubSeq(saved, 1, Len(saved) - 1)
         [] OTHER ->
            /\ IF Violation(x) THEN PrintT("@V " \o ToJson([line |-> l, ev |-> x.ev, why |-> ToString(Why(x))])) ELSE TRUE
            /\ st' = IF "panic" \in DOMAIN x THEN st ELSE After(x)
            /\ saved' = saved
Spec == Init /\ [][Next]_vars
View == l
Done == PrintT("@DONE " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Trace)))
=============================================================================

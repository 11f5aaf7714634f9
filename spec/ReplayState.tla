---------------------------- MODULE ReplayState ----------------------------
(***************************************************************************)
(* The replay state machine: unit registry, control groups, selection,     *)
(* commands, camera and player bindings, and the change hint that each     *)
(* event yields.                                                           *)
(*                                                                         *)
(* The state is one record                                                 *)
(*   units  : tag index -> unit record                                     *)
(*   groups : user id -> sequence of 11 sequences of tags, groups[u][11]   *)
(*            is the current selection of u, groups[u][g+1] is hotkey g    *)
(*   cam    : user id -> <<x, y>>                                          *)
(*   pl     : user id -> [name, tpid, tslot]  (lobby name, bound tracker   *)
(*            player id and slot)                                          *)
(* Step(st, ev) is the next state, the hint and the event as returned.     *)
(***************************************************************************)
EXTENDS BalanceOps

CONSTANT Balance   \* unit type name -> [radius, abilities, trains, builds, researches]

Active == 11
Groups == 1..11

(*------------------------- per-type unit properties ----------------------*)
DefaultRadius == <<7549747, -24>>             \* 0.45 as a 32-bit float
White == <<250, 248, 251, 255>>
LightGreen == <<110, 194, 156, 255>>
LightBlue == <<114, 197, 221, 255>>
LightGray == <<244, 245, 248, 255>>
Orange == <<235, 121, 7, 255>>
Gold == <<234, 158, 54, 255>>
Gray == <<178, 197, 197, 255>>
Yellow == <<247, 212, 84, 255>>
Pink == <<234, 164, 131, 255>>
Violet == <<164, 1, 237, 255>>

TypeColor ==
  [VespeneGeyser |-> LightGreen, SpacePlatformGeyser |-> LightGreen,
   LabMineralField |-> LightBlue, LabMineralField750 |-> LightBlue,
   MineralField |-> LightBlue, MineralField450 |-> LightBlue,
   MineralField750 |-> LightBlue, XelNagaTower |-> White,
   RichMineralField |-> Gold, RichMineralField750 |-> Orange,
   DestructibleRockEx1DiagonalHugeBLUR |-> Gray, DestructibleDebris6x6 |-> Gray,
   UnbuildablePlatesDestructible |-> LightGray,
   Overlord |-> Yellow, Pylon |-> Yellow, SupplyDepot |-> Yellow,
   SCV |-> LightGray, Drone |-> LightGray, Probe |-> LightGray,
   Larva |-> LightGray, Egg |-> LightGray,
   Hatchery |-> Pink, CommandCenter |-> Pink, Nexus |-> Pink,
   Broodling |-> LightGray, Infestor |-> Violet]
UserColor(u) == CASE u = 0 -> LightGreen [] u = 1 -> LightBlue
                  [] u = 2 -> LightGray  [] u = 3 -> Orange [] OTHER -> White

BaseRadius(name) == IF name \in DOMAIN Balance /\ IsSome(Balance[name].radius)
                    THEN Get(Balance[name].radius) ELSE DefaultRadius
ColorOf(name, own) == IF name \in DOMAIN TypeColor THEN TypeColor[name]
                      ELSE UserColor(IF IsSome(own) THEN Get(own) ELSE 0)
ShownRadius(name, sel) == IF sel THEN DyDouble(BaseRadius(name)) ELSE BaseRadius(name)

AbilityName(type, link, cmd) == NameFor(Balance, type, link, cmd)

(*------------------------------ small helpers ----------------------------*)
NoCmd == [flags |-> 0, abil |-> None, data |-> [k |-> "none"], seq |-> 0,
          other |-> None, oname |-> None, group |-> None]
Zero3 == <<<<0, 0>>, <<0, 0>>, <<0, 0>>>>
MapPos(x, y) == <<DyInt(x), DyInt(y), <<0, 0>>>>
(* A fixed-point point of a game event: 4096 units per map unit, y points the other way. *)
MapPoint(p) == <<DyShift(DyInt(p[1]), -12), DyNeg(DyShift(DyInt(p[2]), -12)), DyShift(DyInt(p[3]), -12)>>

UnitOf(st, tag) == tag[1]
Known(st, tag) == UnitOf(st, tag) \in DOMAIN st.units
Lookup(st, ix) == IF ix \in DOMAIN st.units THEN Some(st.units[ix]) ELSE None
IsUser(st, u) == u \in DOMAIN st.groups
Selection(st, u) == IF IsUser(st, u) THEN st.groups[u][Active] ELSE <<>>

(* The player name bound to a tracker player id. Lobbies bind each id at most once. *)
NameOfPlayer(st, pid) ==
  LET U == {u \in DOMAIN st.pl : st.pl[u].tpid = Some(pid)}
  IN IF U = {} THEN None ELSE Some(st.pl[CHOOSE u \in U : TRUE].name)

WithProps(u) == [u EXCEPT !.rad = ShownRadius(u.name, u.sel), !.col = ColorOf(u.name, u.own)]
NewUnit(ix, loop, own, pn, name, pos, abil, init) ==
  WithProps([ix |-> ix, loop |-> loop, own |-> own, pn |-> pn, name |-> name, pos |-> pos,
             il |-> loop, abil |-> abil, rad |-> <<0, 0>>, col |-> White, sel |-> FALSE,
             init |-> init, cmd |-> NoCmd])
PutUnit(st, u) == [st EXCEPT !.units = (u.ix :> u) @@ st.units]

HNone == [k |-> "none"]
HReg(u, creator) == [k |-> "reg", unit |-> u, creator |-> creator]
HUnits(kind, us) == [k |-> kind, units |-> us]
Res(st, hint, ev) == [st |-> st, hint |-> hint, ev |-> ev]

(*----------------------------- tracker events ----------------------------*)
UnitInit(st, ev) ==
  LET pos == MapPos(ev.x, ev.y)
      old == Lookup(st, ev.ix)
      u == IF IsSome(old)
           THEN WithProps([Get(old) EXCEPT !.loop = ev.loop, !.pos = pos, !.init = TRUE, !.name = ev.name])
           ELSE NewUnit(ev.ix, ev.loop, Some(ev.pid), NameOfPlayer(st, ev.pid), ev.name, pos, None, TRUE)
  IN Res(PutUnit(st, u), HReg(u, None), ev)

UnitBorn(st, ev) ==
  LET touched == IF IsSome(ev.creator) /\ Get(ev.creator) \in DOMAIN st.units
                 THEN [st EXCEPT !.units[Get(ev.creator)].loop = ev.loop] ELSE st
      creator == IF IsSome(ev.creator) THEN Lookup(touched, Get(ev.creator)) ELSE None
      old == Lookup(touched, ev.ix)
      u == IF IsSome(old)
           THEN [Get(old) EXCEPT !.abil = ev.abil, !.loop = ev.loop]
           ELSE NewUnit(ev.ix, ev.loop, Some(ev.pid), NameOfPlayer(st, ev.pid), ev.name,
                        MapPos(ev.x, ev.y), ev.abil, FALSE)
  IN Res(PutUnit(touched, u), HReg(u, creator), ev)

UnitTypeChange(st, ev) ==
  LET old == Lookup(st, ev.ix)
      u == IF IsSome(old)
           THEN WithProps([Get(old) EXCEPT !.name = ev.name, !.loop = ev.loop])
           ELSE NewUnit(ev.ix, ev.loop, None, None, ev.name, Zero3, None, FALSE)
  IN Res(PutUnit(st, u), HReg(u, old), ev)

UnitDone(st, ev) ==
  IF ev.ix \notin DOMAIN st.units THEN Res(st, HNone, ev)
  ELSE LET u == WithProps([st.units[ev.ix] EXCEPT !.loop = ev.loop, !.init = FALSE])
       IN Res(PutUnit(st, u), HReg(u, None), ev)

(* The k-th entry of a position report: the unit index is the first index plus all deltas so far. *)
RECURSIVE PosEntries(_, _, _)
PosEntries(first, items, k) ==
  IF 3 * k > Len(items) THEN <<>>
  ELSE LET ix == first + items[3 * k - 2]
       IN <<<<ix, items[3 * k - 1], items[3 * k]>>>> \o PosEntries(ix, items, k + 1)

UnitPosition(st, ev) ==
  LET all == PosEntries(ev.first, ev.items, 1)
      seen == SelectSeq(all, LAMBDA e : e[1] \in DOMAIN st.units)
      Last(ix) == CHOOSE i \in DOMAIN seen : seen[i][1] = ix /\ \A j \in DOMAIN seen : seen[j][1] = ix => j <= i
      moved == {seen[i][1] : i \in DOMAIN seen}
      units2 == [ix \in moved |->
                   LET e == seen[Last(ix)] IN [st.units[ix] EXCEPT !.pos = MapPos(e[2], e[3]), !.loop = ev.loop]]
                @@ st.units
      st2 == [st EXCEPT !.units = units2]
  IN Res(st2, HUnits("pos", [i \in DOMAIN seen |-> st2.units[seen[i][1]]]), ev)

UnitDied(st, ev) ==
  LET groups2 == [u \in DOMAIN st.groups |->
                    [g \in Groups |-> SelectSeq(st.groups[u][g], LAMBDA t : t[1] # ev.ix)]]
      st2 == [st EXCEPT !.groups = groups2, !.units = Without(st.units, {ev.ix})]
  IN IF ev.ix \notin DOMAIN st.units THEN Res(st2, HNone, ev)
     ELSE Res(st2, [k |-> "unreg", killed |-> st.units[ev.ix],
                    killer |-> IF IsSome(ev.killer) THEN Lookup(st2, Get(ev.killer)) ELSE None], ev)

PlayerSetup(st, ev) ==
  Res(IF IsSome(ev.uid) /\ Get(ev.uid) \in DOMAIN st.pl
      THEN [st EXCEPT !.pl[Get(ev.uid)].tpid = Some(ev.pid), !.pl[Get(ev.uid)].tslot = ev.slot]
      ELSE st, HNone, ev)

Upgrade(st, ev) == Res(st, HNone, [ev EXCEPT !.pname = NameOfPlayer(st, ev.pid)])

(*------------------------------ game events ------------------------------*)
CameraMove(st, ev) ==
  Res(IF IsSome(ev.target) /\ ev.u \in DOMAIN st.cam
      THEN [st EXCEPT !.cam[ev.u] = Get(ev.target)] ELSE st, HNone, ev)

(* The registered units a sequence of tags denotes, in order, repetitions included. *)
UnitsOf(st, tags) == LET k == SelectSeq(tags, LAMBDA t : t[1] \in DOMAIN st.units)
                     IN [i \in DOMAIN k |-> k[i][1]]
(* Applies F to every unit in the sequence of indexes. *)
MapUnits(st, ixs, F(_)) ==
  IF Len(ixs) = 0 THEN st
  ELSE [st EXCEPT !.units = [ix \in Range(ixs) |-> F(st.units[ix])] @@ st.units]
CurrentUnits(st, ixs) == [i \in DOMAIN ixs |-> st.units[ixs[i]]]

CmdData(d) == CASE d.k = "point" -> [k |-> "point", p |-> MapPoint(d.p)]
                [] d.k = "unit" -> [k |-> "unit", flags |-> d.flags, timer |-> d.timer, tag |-> d.tag,
                                    link |-> d.link, ctl |-> d.ctl, upk |-> d.upk, p |-> MapPoint(d.p)]
                [] OTHER -> d

Cmd(st, ev) ==
  LET target == IF ev.data.k = "unit" THEN Lookup(st, ev.data.tag[1]) ELSE None
      ixs == IF IsSome(ev.abil) THEN UnitsOf(st, Selection(st, ev.u)) ELSE <<>>
      Named(type) == [Get(ev.abil) EXCEPT !.name = AbilityName(type, Get(ev.abil).link, Get(ev.abil).index)]
      NewCmd(u) == [flags |-> ev.flags, abil |-> Some(Named(u.name)), data |-> CmdData(ev.data),
                    seq |-> ev.seq, other |-> ev.other,
                    oname |-> IF IsSome(target) THEN Some(Get(target).name) ELSE None, group |-> ev.group]
      Give(u) == [u EXCEPT !.cmd = NewCmd(u), !.loop = ev.loop]
      st2 == MapUnits(st, ixs, Give)
      ev2 == IF Len(ixs) = 0 THEN ev ELSE [ev EXCEPT !.abil = Some(Named(st.units[ixs[Len(ixs)]].name))]
  IN Res(st2, [k |-> "abil", units |-> CurrentUnits(st2, ixs), target |-> target, ev |-> Without(ev2, {"u", "loop"})], ev2)

UpdateTargetPoint(st, ev) ==
  LET ixs == UnitsOf(st, Selection(st, ev.u))
      Aim(u) == [u EXCEPT !.cmd.data = [k |-> "point", p |-> MapPoint(ev.p)], !.cmd.other = None, !.loop = ev.loop]
      st2 == MapUnits(st, ixs, Aim)
  IN Res(st2, HUnits("tp", CurrentUnits(st2, ixs)), ev)

UpdateTargetUnit(st, ev) ==
  LET target == Lookup(st, ev.data.tag[1])
      ixs == UnitsOf(st, Selection(st, ev.u))
      Aim(u) == [u EXCEPT !.cmd.data = CmdData(ev.data), !.loop = ev.loop]
      st2 == MapUnits(st, ixs, Aim)
  IN IF ~IsSome(target) THEN Res(st, HNone, ev)
     ELSE Res(st2, [k |-> "tu", units |-> CurrentUnits(st2, ixs), target |-> Get(target)], ev)

(* Takes the mark from the units of the old selection and gives it to those of the new one.
   Every registered unit of either selection counts as updated in this loop; the hint lists, by
   tag index, those whose mark was taken or given. *)
Mark(u)   == IF u.sel THEN u ELSE [u EXCEPT !.sel = TRUE,  !.rad = DyDouble(u.rad)]
Unmark(u) == IF u.sel THEN [u EXCEPT !.sel = FALSE, !.rad = DyHalf(u.rad)] ELSE u
Reselect(st, old, new, loop) ==
  LET o == Range(UnitsOf(st, old))
      n == Range(UnitsOf(st, new))
      Drop(u) == [Unmark(u) EXCEPT !.loop = loop]
      st1 == MapUnits(st, UnitsOf(st, old), Drop)
      Take(u) == [Mark(u) EXCEPT !.loop = loop]
      st2 == MapUnits(st1, UnitsOf(st, new), Take)
      changed == {ix \in o : st.units[ix].sel} \cup {ix \in n : ~st1.units[ix].sel}
  IN [st |-> st2, hint |-> HUnits("sel", CurrentUnits(st2, SortInts(changed)))]

SelectionDelta(st, ev) ==
  LET r == IF ev.g = 10 /\ IsUser(st, ev.u) THEN Reselect(st, Selection(st, ev.u), ev.tags, ev.loop)
           ELSE [st |-> st, hint |-> HUnits("sel", <<>>)]
      st2 == IF IsUser(st, ev.u) /\ ev.g + 1 \in Groups
             THEN [r.st EXCEPT !.groups[ev.u][ev.g + 1] = ev.tags] ELSE r.st
  IN Res(st2, r.hint, ev)

ControlGroupUpdate(st, ev) ==
  LET hint0 == HUnits("sel", <<>>)
      g == ev.g + 1
      gs == st.groups[ev.u]
      selected == gs[Active]
      Stolen == [i \in Groups |-> IF i = Active THEN gs[i]
                                  ELSE SelectSeq(gs[i], LAMBDA t : t \notin Range(selected))]
      Put(h, v) == [st EXCEPT !.groups[ev.u] = [h EXCEPT ![g] = v]]
      Appended(h) == SortTags(Range(h[g]) \cup Range(selected))
  IN IF ~IsUser(st, ev.u) \/ g \notin Groups THEN Res(st, hint0, ev)
     ELSE CASE ev.op = "set"     -> Res(Put(gs, selected), hint0, ev)
            [] ev.op = "setsteal" -> Res(Put(Stolen, selected), hint0, ev)
            [] ev.op = "clear"   -> Res(Put(gs, <<>>), hint0, ev)
            [] ev.op = "append"  -> Res(Put(gs, Appended(gs)), hint0, ev)
            [] ev.op = "appendsteal" -> Res(Put(Stolen, Appended(Stolen)), hint0, ev)
            [] ev.op = "recall"  ->
                 LET r == Reselect(st, selected, gs[g], ev.loop)
                 IN Res([r.st EXCEPT !.groups[ev.u] = [gs EXCEPT ![Active] = gs[g]]], r.hint, ev)

(*-------------------------------- dispatch -------------------------------*)
Step(st, ev) ==
  CASE ev.k = "init"  -> UnitInit(st, ev)
    [] ev.k = "born"  -> UnitBorn(st, ev)
    [] ev.k = "type"  -> UnitTypeChange(st, ev)
    [] ev.k = "done"  -> UnitDone(st, ev)
    [] ev.k = "died"  -> UnitDied(st, ev)
    [] ev.k = "pos"   -> UnitPosition(st, ev)
    [] ev.k = "setup" -> PlayerSetup(st, ev)
    [] ev.k = "upgrade" -> Upgrade(st, ev)
    [] ev.k = "cam"   -> CameraMove(st, ev)
    [] ev.k = "cmd"   -> Cmd(st, ev)
    [] ev.k = "tp"    -> UpdateTargetPoint(st, ev)
    [] ev.k = "tu"    -> UpdateTargetUnit(st, ev)
    [] ev.k = "seld"  -> SelectionDelta(st, ev)
    [] ev.k = "ctl"   -> ControlGroupUpdate(st, ev)
    [] OTHER          -> Res(st, HNone, ev)        \* "other": tracked by nobody

(* The state before the first event: nothing registered, empty groups, camera at the origin. *)
InitState(players) ==   \* players: user id -> name
  [units |-> <<>>, groups |-> [u \in DOMAIN players |-> [g \in Groups |-> <<>>]],
   cam |-> [u \in DOMAIN players |-> <<0, 0>>],
   pl |-> [u \in DOMAIN players |-> [name |-> players[u], tpid |-> None, tslot |-> None]]]

(*------------------------------- properties ------------------------------*)
(* C05: the radius is that of the type, doubled exactly while marked. *)
RadiusOK(st) == \A ix \in DOMAIN st.units :
                  /\ st.units[ix].rad = ShownRadius(st.units[ix].name, st.units[ix].sel)
                  /\ st.units[ix].col = ColorOf(st.units[ix].name, st.units[ix].own)
(* C03: registered under its own index. *)
RegistryOK(st) == \A ix \in DOMAIN st.units : st.units[ix].ix = ix /\ st.units[ix].il <= st.units[ix].loop
(* C04 *)
GroupsOK(st) == \A u \in DOMAIN st.groups : DOMAIN st.groups[u] = Groups
=============================================================================

------------------------------ MODULE MergeTrace ------------------------------
(***************************************************************************)
(* The event iterator of a replay: two streams with their own clocks, one   *)
(* look-ahead event each, merged by loop with the tracker first on a tie.   *)
(* The trace holds the bytes of both streams and the items that the         *)
(* implementation returned; every item is one step of this machine.         *)
(***************************************************************************)
EXTENDS Streams, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES caseNo, outNo,         \* the case, items seen
          tPos, tClock, tHead,   \* tracker stream: position, loop, look-ahead
          gPos, gClock, gHead    \* game stream
vars == <<caseNo, outNo, tPos, tClock, tHead, gPos, gClock, gHead>>

X == Trace[caseNo]
Ended == "ended"
Unknown == "unknown"             \* nobody can rely on what follows
Wanted == "wanted"

Fresh == /\ outNo' = 0 /\ tPos' = 0 /\ tClock' = Zero /\ tHead' = [s |-> Wanted] /\ gPos' = 0 /\ gClock' = Zero /\ gHead' = [s |-> Wanted]
NextCase == caseNo' = caseNo + 1 /\ Fresh
Init == caseNo = 1 /\ outNo = 0 /\ tPos = 0 /\ tClock = Zero /\ tHead = [s |-> Wanted] /\ gPos = 0 /\ gClock = Zero /\ gHead = [s |-> Wanted]

(* Reads on to the next event that is passed on. *)
RECURSIVE TrackerAhead(_, _, _, _), GameAhead(_, _, _, _)
TrackerAhead(S, bytes, at, clock) ==
  IF at >= Len(bytes) THEN [s |-> Ended, p |-> at]
  ELSE LET r == ReadTracker(S, bytes, at)
       IN CASE r.k = "dontcare" -> [s |-> Unknown, p |-> at]
            [] r.k = "err" -> [s |-> Ended, p |-> at]
            [] OTHER -> LET l == NumAdd(clock, r.delta)
                        IN IF TrackerSupported(r.e) THEN [s |-> "event", p |-> r.p, l |-> l, e |-> r.e] ELSE TrackerAhead(S, bytes, r.p, l)
GameAhead(S, bytes, at, clock) ==
  IF at >= 8 * Len(bytes) THEN [s |-> Ended, p |-> at]
  ELSE LET r == ReadGame(S, bytes, at)
       IN CASE r.k = "dontcare" -> [s |-> Unknown, p |-> at]
            [] r.k = "err" -> [s |-> Ended, p |-> at]
            [] OTHER -> LET l == NumAdd(clock, r.delta)
                        IN IF GameSupported(r.e) THEN [s |-> "event", p |-> r.p, l |-> l, u |-> r.user, e |-> r.e] ELSE GameAhead(S, bytes, r.p, l)

(* What the state machine adds to an event is not the subject here (see ReplayState). *)
BareUpgrade(e) == IF "Upgrade" \in DOMAIN Fs(e) THEN Rec("Upgrade" :> Set1(Fs(e).Upgrade, "player_name", Unit)) ELSE e
BareCmd(e) == IF "Cmd" \in DOMAIN Fs(e) /\ ~IsNothing(Fs(Fs(e).Cmd).m_abil)
              THEN Rec("Cmd" :> Set1(Fs(e).Cmd, "m_abil", Set1(Fs(Fs(e).Cmd).m_abil, "ability", <<1>>))) ELSE e
Strip(e) == BareCmd(BareUpgrade(e))
NameOf(u) == LET S == {i \in DOMAIN X.lobby : X.lobby[i][1] = u}
             IN IF S = {} THEN Unit ELSE X.lobby[CHOOSE i \in S : TRUE][2]

TrackerFirst(t, g) == t.s = "event" /\ (g.s # "event" \/ ~NumLess(g.l, t.l))

Bad(props, what, expected, observed) ==
  PrintT("@BAD " \o ToJson([case |-> caseNo, id |-> X.id, props |-> props, item |-> outNo + 1, what |-> what,
                            why |-> ToString([expected |-> expected, observed |-> observed])]))

Judge(i, kind, h) ==      \* item i is the look-ahead event h
  IF i.t # kind THEN Bad(<<"C01">>, "the other stream is due", [stream |-> kind, l |-> h.l], [stream |-> i.t, l |-> i.l]) /\ FALSE
  ELSE IF i.q # <<kind = "T", kind = "G", TRUE>> THEN Bad(<<"C01">>, "kind of the item", kind, i.q) /\ FALSE
  ELSE IF i.l # h.l THEN Bad(<<"C02">>, "loop", h.l, i.l) /\ FALSE
  ELSE IF Strip(i.e) # (IF kind = "T" THEN TrackerEvent(h.e) ELSE GameEvent(h.e)) \/ (kind = "G" /\ i.u # h.u)
       THEN Bad(<<"C01", "C02">>, "event", IF kind = "T" THEN TrackerEvent(h.e) ELSE <<h.u, GameEvent(h.e)>>, IF kind = "T" THEN i.e ELSE <<i.u, i.e>>) /\ FALSE
  ELSE IF kind = "G" /\ i.n # NameOf(h.u) THEN Bad(<<"C09">>, "name of the player", NameOf(h.u), i.n) /\ FALSE
  ELSE TRUE

Step ==
  IF X.got.k = "panic" THEN Bad(<<"C01", "C02", "C11", "C21", "C09">>, "panic", "events", X.got.m) /\ NextCase
  ELSE IF X.got.k = "err" THEN Bad(<<"C01">>, "the replay does not open", "events", "an error") /\ NextCase
  ELSE
  LET S == SchemaOf(X.build)
      t == IF tHead.s = Wanted THEN TrackerAhead(S, X.tb, tPos, tClock) ELSE tHead
      g == IF gHead.s = Wanted THEN GameAhead(S, X.gb, gPos, gClock) ELSE gHead
      items == X.got.v
      tp == IF tHead.s = Wanted THEN t.p ELSE tPos
      gp == IF gHead.s = Wanted THEN g.p ELSE gPos
  IN IF t.s = Unknown \/ g.s = Unknown THEN NextCase
     ELSE IF t.s = Ended /\ g.s = Ended
     THEN (IF outNo = Len(items) THEN TRUE ELSE Bad(<<"C01", "C02">>, "items after both streams ended", outNo, Len(items))) /\ NextCase
     ELSE IF outNo = Len(items)
     THEN Bad(<<"C01", "C02">>, "no more items", IF TrackerFirst(t, g) THEN t ELSE g, "the end") /\ NextCase
     ELSE LET kind == IF TrackerFirst(t, g) THEN "T" ELSE "G"
          IN IF Judge(items[outNo + 1], kind, IF kind = "T" THEN t ELSE g)
             THEN /\ outNo' = outNo + 1 /\ caseNo' = caseNo /\ tPos' = tp /\ gPos' = gp
                  /\ tClock' = (IF t.s = "event" THEN t.l ELSE tClock)
                  /\ gClock' = (IF g.s = "event" THEN g.l ELSE gClock)
                  /\ tHead' = (IF kind = "T" THEN [s |-> Wanted] ELSE t)
                  /\ gHead' = (IF kind = "G" THEN [s |-> Wanted] ELSE g)
             ELSE NextCase
Next == caseNo <= Len(Trace) /\ Step
Spec == Init /\ [][Next]_vars
Progress == TLCSet(1, caseNo)
Finished == PrintT("@DONE " \o ToString(TLCGet(1) - 1) \o " " \o ToString(Len(Trace)) \o " " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================

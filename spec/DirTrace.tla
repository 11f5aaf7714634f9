------------------------------- MODULE DirTrace -------------------------------
(***************************************************************************)
(* Scans of real directory trees: which files were found, and what the      *)
(* statistics count.  One scan per line, with the tree that was built.      *)
(***************************************************************************)
EXTENDS Lib, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE caseNo
Cur == Trace[caseNo]
Bad(what, e, o) == PrintT("@BAD " \o ToJson([case |-> caseNo, id |-> Cur.id, props |-> <<"C19">>, what |-> what, why |-> ToString([expected |-> e, observed |-> o])])) /\ FALSE

(*-------------------------------- the files -------------------------------*)
Extension == Elems(TextOf(".SC2Replay"))
IsReplay(name) == /\ Len(name) > Len(Extension)
                  /\ SubSeq(name, Len(name) - Len(Extension) + 1, Len(name)) = Extension
Leaf(e) == e.k \in {"file", "filelink"} /\ IsReplay(e.n)
Inner(e) == e.k \in {"dir", "dirlink"}
(* the replays at most d levels deep, as paths of numbers *)
RECURSIVE Eligible(_, _, _)
Eligible(t, p, d) == IF d = 0 THEN {}
                     ELSE UNION {IF Leaf(t[i]) THEN {Append(p, i)} ELSE IF Inner(t[i]) THEN Eligible(t[i].d, Append(p, i), d - 1) ELSE {} : i \in DOMAIN t}
Found(d) == IF Cur.root = "dir" THEN Eligible(Cur.tree, <<>>, d) ELSE {}
RECURSIVE EntryAt(_, _)
EntryAt(t, p) == IF Len(p) = 1 THEN t[p[1]] ELSE EntryAt(t[p[1]].d, SubSeq(p, 2, Len(p)))
Least(a, b) == IF a < b THEN a ELSE b
JudgeFiles ==
  LET e == Found(Cur.depth)
      g == Cur.got.v
      n == IF Cur.max < 0 THEN Cardinality(e) ELSE Least(Cur.max, Cardinality(e))
      S == {g[i] : i \in DOMAIN g}
  IN IF Cardinality(S) # Len(g) THEN Bad("a file is found twice", e, g)
     ELSE IF ~(S \subseteq e) THEN Bad("found, but not a replay within the depth", e, S \ e)
     ELSE IF Len(g) # n THEN Bad("number of files", <<n, e>>, g)
     ELSE TRUE

(*------------------------------- statistics -------------------------------*)
MaxDepth == 10
(* what can be read of a file, by how it was made *)
HasLobby(kind) == kind \in {"full", "nodetails", "notracker", "nogame"}
HasDetails(kind) == kind \in {"full", "notracker", "nogame"}
FileOk(p) ==
  LET f == EntryAt(Cur.tree, p)
  IN IF f.read.k # (IF HasLobby(f.c) THEN "ok" ELSE "err") THEN Bad("readable", <<p, f.c>>, f.read.k)
     ELSE IF f.read.k = "err" THEN TRUE
     ELSE IF f.read.details # (IF HasDetails(f.c) THEN "ok" ELSE "err") THEN Bad("readable details", <<p, f.c>>, f.read.details)
     ELSE IF f.read.version # f.build THEN Bad("version", f.build, f.read.version) ELSE TRUE
RECURSIVE Flatten(_)
Flatten(ps) == IF ps = {} THEN <<>> ELSE LET p == CHOOSE p \in ps : TRUE IN EntryAt(Cur.tree, p).read.names \o Flatten(ps \ {p})
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
(* The most frequent entries of s, as pairs of name and count: any order among equally frequent ones. *)
Top(what, s, g) ==
  LET all == {s[i] : i \in DOMAIN s}
      top == {g[i][1] : i \in DOMAIN g}
  IN IF Len(g) # Least(10, Cardinality(all)) \/ Cardinality(top) # Len(g) THEN Bad(what \o ": length", all, g)
     ELSE IF \E i \in DOMAIN g : g[i][2] # Count(s, g[i][1]) THEN Bad(what \o ": counts", [i \in DOMAIN g |-> <<g[i][1], Count(s, g[i][1])>>], g)
     ELSE IF \E i, j \in DOMAIN g : i < j /\ g[i][2] < g[j][2] THEN Bad(what \o ": order", "descending", g)
     ELSE IF \E x \in all \ top : \E i \in DOMAIN g : g[i][2] < Count(s, x) THEN Bad(what \o ": more frequent ones are missing", all \ top, g)
     ELSE TRUE
JudgeStats ==
  LET e == Found(MaxDepth)
      readable == {p \in e : EntryAt(Cur.tree, p).read.k = "ok"}
      known == {p \in readable : \E i \in DOMAIN Cur.versions : Cur.versions[i] = EntryAt(Cur.tree, p).build}
      detailed == {p \in readable : EntryAt(Cur.tree, p).read.details = "ok"}
      v == Cur.got.v
      titles == [p \in detailed |-> EntryAt(Cur.tree, p).read.title]
      RECURSIVE Listed(_)
      Listed(ps) == IF ps = {} THEN <<>> ELSE LET p == CHOOSE p \in ps : TRUE IN <<titles[p]>> \o Listed(ps \ {p})
  IN IF ~\A p \in e : FileOk(p) THEN FALSE
     ELSE IF v.total # Cardinality(e) THEN Bad("total files", Cardinality(e), v.total)
     ELSE IF v.supported # Cardinality(readable) THEN Bad("supported replays", readable, v.supported)
     ELSE IF v.abilities # Cardinality(known) THEN Bad("replays with abilities", known, v.abilities)
     ELSE Top("players", Flatten(detailed), v.players) /\ Top("maps", Listed(detailed), v.maps)

Judge == IF Cur.got.k # "ok" THEN Bad("scan", "a result", Cur.got) ELSE IF Cur.op = "files" THEN JudgeFiles ELSE JudgeStats
Init == caseNo = 1
Next == caseNo <= Len(Trace) /\ caseNo' = caseNo + 1 /\ (IF Judge THEN TRUE ELSE TRUE)
Spec == Init /\ [][Next]_caseNo
Progress == TLCSet(1, caseNo)
Finished == PrintT("@DONE " \o ToString(TLCGet(1) - 1) \o " " \o ToString(Len(Trace)) \o " " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================

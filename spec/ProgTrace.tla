----------------------------- MODULE ProgTrace -----------------------------
(***************************************************************************)
(* Trace validation of runs of the command line program: the actions of    *)
(* its input document are read one by one, then the outcome of the run is  *)
(* judged.                                                                 *)
(***************************************************************************)
EXTENDS Program, Json, IOUtils

CASES == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, k, S, tags, bad
vars == <<c, k, S, tags, bad>>

P  == CASES[c].pts
Ev == CASES[c].events[k + 1]

Clause(name, holds) == IF holds THEN {} ELSE {name}

----------------------------------------------------------------------------

\* what a run wrote for the domain D; tame: refinement could do its work
Meshed(e, D, tame) ==
  LET M == TriSet(e.tris)
      E == AllDE(M)
      V == SeqSet(e.ids)
      N == Subdivision(P, D, V)
      C == Constraints(N)
      indices == /\ e.indexed
                 /\ Cardinality(V) = Len(e.ids)
                 /\ Verts(M) = V
  IN
  Clause("out.fields", e.fields)
  \cup Clause("out.indices", ~tame \/ indices)
  \cup IF ~indices THEN {} ELSE
  Clause("run.area", AreaCovered(P, M, N, 8))
  \cup Clause("run.vertices", DomVerts(D) \subseteq V)
  \cup IF ~tame THEN {} ELSE
  Clause("run.region", {d \in E : Rev(d) \notin E} = LoopEdges(N.outer) \cup {Rev(d) : d \in UNION {LoopEdges(h) : h \in N.holes}})
  \cup Clause("run.segments", \A s \in N.segs : s \in E /\ Rev(s) \in E)
  \cup Clause("out.structure", /\ Len(e.tris) = Cardinality(M)
                               /\ \A t \in M : Cardinality(Corners(t)) = 3
                               /\ Cardinality(E) = 3 * Cardinality(M)
                               /\ Counterclockwise(P, M))
  \cup Clause("out.delaunay", LocallyDelaunay(P, M, C, 7))
  \cup Clause("out.unencroached", Unencroached(P, M, C))
  \cup Clause("out.quality", GoodQuality(P, M, e.quality))
  \cup Clause("out.maxarea", SmallArea(P, M, e.area))

\* sharp angles are outside of what refinement can do
Refinable(e, D) == NoSharpAngle(P, D) /\ RatioAllowed(e.quality) /\ ValidDomain(P, D)

\* then the program may fail, or place vertices closer than names can tell, but not mesh another domain
Want(e) == LET w == Outcome(P, S, SeqSet(e.cross)) IN
           IF w[1] # "accepted" \/ Refinable(e, w[2]) THEN w
           ELSE IF ValidDomain(P, w[2]) THEN <<"sharp", w[2]>> ELSE <<"open">>

Judged(e, w) ==
  CASE w[1] = "open" -> {}
    [] w[1] = "rejected" -> Clause("run.rejected", e.res = "rejected" /\ e.silent)
    [] w[1] = "accepted" -> IF e.res = "ok" THEN Meshed(e, w[2], TRUE) ELSE {"run.accepted"}
    [] w[1] = "sharp" -> IF e.res = "ok" THEN Meshed(e, w[2], FALSE) ELSE {}

Init ==
  /\ c \in DOMAIN CASES /\ k = 0 /\ S = Start /\ tags = <<>> /\ bad = {}

Next ==
  /\ k < Len(CASES[c].events)
  /\ bad = {}
  /\ LET e == Ev IN
     IF e.op = "doc" THEN S' = Opened(S, SeqSet(e.has), e.rings) /\ UNCHANGED <<tags, bad>>
     ELSE IF e.op = "action" THEN S' = Read(P, S, e) /\ UNCHANGED <<tags, bad>>
     ELSE LET w == Want(e) IN bad' = Judged(e, w) /\ tags' = Append(tags, "run." \o w[1]) /\ S' = S
  /\ k' = k + 1
  /\ c' = c

Conforms ==
  /\ bad = {} \/ PrintT(<<"BROKEN", CASES[c].id, k, CASES[c].events[k].op, bad>>)
  /\ (k = Len(CASES[c].events) \/ bad # {}) => PrintT(<<"TAGS", CASES[c].id, tags>>)

=============================================================================

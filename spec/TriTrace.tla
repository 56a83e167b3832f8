------------------------------ MODULE TriTrace ------------------------------
(***************************************************************************)
(* Trace validation of Triangulator histories.  Each case is a recorded    *)
(* history of calls; the state is the domain the history has built so far  *)
(* (D) and the clauses of the specification the last step broke (bad).     *)
(* A step is a transition of Domain.tla (the insertions) or of the         *)
(* triangulation (triangulate, refine), whose outcome is related to the    *)
(* domain by Mesh.tla and Refine.tla.                                      *)
(***************************************************************************)
EXTENDS Refine, TLC, Json, IOUtils

CASES == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c,    \* the case
          k,    \* number of steps taken
          D,    \* the domain
          memo, \* earlier triangulations: set of <<domain, mesh>>
          tags, \* what the steps exercised (for the harness' coverage report)
          bad   \* clauses broken by the last step
vars == <<c, k, D, memo, tags, bad>>

Pts  == CASES[c].pts
Ev   == CASES[c].events[k + 1]
MeshOf(e) == TriSet(e.tris)
HolesOf(e) == SeqSet(e.holes)

Clause(name, holds) == IF holds THEN {} ELSE {name}

\* the loops are recorded up to rotation: the implementation keeps them as given
Unchanged(e) ==
  /\ SeqSet(e.verts) = D.verts
  /\ PairSet(e.segs) = D.segs
  /\ HolesOf(e) = D.holes

Crashed(e) == e.res \in {"panic", "timeout"}

----------------------------------------------------------------------------
(* insertions *)

InsertVertices(e) ==
  LET vs == SeqSet(e.arg)
      B  == BadVertices(Pts, D, vs)
      N  == AfterVertices(Pts, D, vs)
  IN  IF B # {}
      THEN Clause("verts.rejected", e.res = "err")
           \cup Clause("verts.conflicts", e.res = "err" => SeqSet(e.conf) = B)
           \cup Clause("verts.atomic", e.res = "err" => Unchanged(e))
      ELSE Clause("verts.accepted", e.res = "ok")
           \cup Clause("verts.state", (e.res = "ok" /\ Decided(Pts, vs, D.segs)) =>
                  /\ SeqSet(e.verts) = N.verts
                  /\ Both(PairSet(e.segs)) = Both(N.segs)
                  /\ HolesOf(e) = D.holes)

InsertSegments(e) ==
  LET ss == PairSet(e.arg)
      B  == BadSegments(Pts, D, ss)
      A  == D.segs \cup ss
      X  == UNION {{s[1], s[2]} : s \in PairSet(e.segs)}
  IN  IF B # {}
      THEN Clause("segs.rejected", e.res = "err")
           \cup Clause("segs.conflicts", e.res = "err" => PairSet(e.conf) = B)
           \cup Clause("segs.atomic", e.res = "err" => Unchanged(e))
      ELSE Clause("segs.accepted", e.res = "ok")
           \cup Clause("segs.state", (e.res = "ok" /\ NoOverlap(Pts, A) /\ Harmless(Pts, A, X, SegPoints(D, A))) =>
                  /\ CrossingsKnown(Pts, A, X)
                  /\ SeqSet(e.verts) = SegVertsAfter(Pts, D, ss)
                  /\ Both(PairSet(e.segs)) = SegmentsAfter(Pts, D, ss, X)
                  /\ HolesOf(e) = D.holes)

InsertHole(e) ==
  LET h == e.arg
      B == HoleConflicts(Pts, D, h)
      N == AfterHole(Pts, D, h)
      W == {s[1] : s \in D.segs} \cup {s[2] : s \in D.segs}
  IN  IF ~(Decided(Pts, LoopSet(h), D.segs) /\ Decided(Pts, W, LoopEdges(h))) THEN {}
      ELSE IF B # {}
      THEN Clause("hole.rejected", e.res = "err")
           \cup Clause("hole.conflicts", e.res = "err" => SeqSet(e.conf) = B)
           \cup Clause("hole.atomic", e.res = "err" => Unchanged(e))
      ELSE Clause("hole.accepted", e.res = "ok")
           \cup Clause("hole.state", e.res = "ok" =>
                  /\ SeqSet(e.verts) = N.verts
                  /\ PairSet(e.segs) = D.segs
                  /\ HolesOf(e) = N.holes)

----------------------------------------------------------------------------
(* triangulation *)

Structure(e) == Consistent(Pts, e.tris, e.adj)

\* a case may waive the premise (known findings are such cases)
Forced == "force" \in DOMAIN CASES[c]
TriPremise == Forced \/ ValidDomain(Pts, D)
RefPremise(e) ==
  Forced \/ /\ k > 0 /\ CASES[c].events[k].op = "triangulate"
            /\ ValidDomain(Pts, D)
            /\ NoSharpAngle(Pts, D)
            /\ RatioAllowed(e.ratio)

\* the direction of a segment and the rotation of a loop don't matter
Key(d) == [outer |-> LoopEdges(d.outer), holes |-> {LoopEdges(h) : h \in d.holes},
           segs |-> Both(d.segs), verts |-> DomVerts(d)]

(* A mesh all of whose flippable edges are strictly locally Delaunay is the *)
(* only constrained Delaunay triangulation of its domain: whatever the      *)
(* history and the iteration order, the result is the same.                 *)
Reproduced(M) ==
  \A m \in memo : (m[1] = Key(D) /\ StrictlyDelaunay(Pts, m[2], Constraints(D))) => m[2] = M

Triangulate(e) ==
  IF ~TriPremise THEN {}
  ELSE IF Crashed(e) THEN {"tri.total"}
  ELSE LET M == MeshOf(e) IN
       Clause("tri.structure", Structure(e))
       \cup Clause("tri.tiling", Bounded(M, D) /\ AreaCovered(Pts, M, D, 0))
       \cup Clause("tri.vertices", Complete(M, D))
       \cup Clause("tri.constraints", Conforming(M, D))
       \cup Clause("tri.delaunay", LocallyDelaunay(Pts, M, Constraints(D), 0))
       \cup Clause("tri.domain", Unchanged(e))
       \cup Clause("tri.unique", Reproduced(M))

RefineMesh(e) ==
  IF ~RefPremise(e) THEN {}
  ELSE IF Crashed(e) THEN {"ref.total"}
  ELSE LET M == MeshOf(e)
           S == Subdivision(Pts, D, Verts(Solid(M)))
       IN  Clause("ref.structure", Structure(e))
           \cup Clause("ref.vertices", DomVerts(D) \subseteq Verts(Solid(M)))
           \cup Clause("ref.constraints", Conforming(M, S))
           \cup Clause("ref.tiling", Bounded(M, S) /\ AreaCovered(Pts, M, D, 9))
           \cup Clause("ref.delaunay", LocallyDelaunay(Pts, M, Constraints(S), 7))
           \cup Clause("ref.encroached", Unencroached(Pts, M, Constraints(S)))
           \cup Clause("ref.quality", GoodQuality(Pts, M, e.ratio))
           \cup Clause("ref.area", SmallArea(Pts, M, e.area))
           \cup Clause("ref.domain", Unchanged(e))

----------------------------------------------------------------------------

Broken(e) ==
  CASE e.op = "new"   -> {}
    [] e.op \in {"verts", "segs", "hole"} /\ Crashed(e) -> {e.op \o ".total"}
    [] e.op = "verts" -> InsertVertices(e)
    [] e.op = "segs"  -> InsertSegments(e)
    [] e.op = "hole"  -> InsertHole(e)
    [] e.op = "triangulate" -> Triangulate(e)
    [] e.op = "refine" -> RefineMesh(e)

Tag(e) ==
  CASE e.op = "new" -> "new"
    [] e.op = "verts" -> IF BadVertices(Pts, D, SeqSet(e.arg)) = {} THEN "verts.ok" ELSE "verts.conflict"
    [] e.op = "segs" -> IF BadSegments(Pts, D, PairSet(e.arg)) # {} THEN "segs.conflict"
                        ELSE IF NoOverlap(Pts, D.segs \cup PairSet(e.arg)) THEN "segs.ok" ELSE "segs.overlap"
    [] e.op = "hole" -> IF HoleConflicts(Pts, D, e.arg) = {} THEN "hole.ok" ELSE "hole.conflict"
    [] e.op = "triangulate" -> IF TriPremise THEN "tri.held" ELSE "tri.skipped"
    [] e.op = "refine" -> IF RefPremise(e) THEN "ref.held" ELSE "ref.skipped"

Fresh == [outer |-> CASES[c].boundary, holes |-> {}, segs |-> {}, verts |-> {}]

(* The domain follows the recorded state, which Broken has compared to the  *)
(* specified one; a step that broke a clause ends the history.              *)
Follow(e) ==
  IF e.op = "new" THEN Fresh
  ELSE IF Crashed(e) THEN D
  ELSE [D EXCEPT !.verts = SeqSet(e.verts), !.segs = PairSet(e.segs), !.holes = HolesOf(e)]

Init ==
  /\ c \in DOMAIN CASES
  /\ k = 0
  /\ D = Fresh
  /\ memo = {}
  /\ tags = <<>>
  /\ bad = {}

Next ==
  /\ k < Len(CASES[c].events)
  /\ bad = {}
  /\ bad' = Broken(Ev)
  /\ tags' = Append(tags, Tag(Ev))
  /\ D' = Follow(Ev)
  /\ memo' = IF Ev.op = "triangulate" /\ ~Crashed(Ev) THEN memo \cup {<<Key(D), MeshOf(Ev)>>} ELSE memo
  /\ k' = k + 1
  /\ c' = c

Spec == Init /\ [][Next]_vars

\* printed for the harness, which maps clauses to properties
Conforms ==
  /\ bad = {} \/ PrintT(<<"BROKEN", CASES[c].id, k, CASES[c].events[k].op, bad>>)
  /\ (k = Len(CASES[c].events) \/ bad # {}) => PrintT(<<"TAGS", CASES[c].id, tags>>)

=============================================================================

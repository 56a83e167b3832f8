-------------------------------- MODULE Mesh --------------------------------
(***************************************************************************)
(* Triangulations of a planar domain, as the implementation represents     *)
(* them: a set of triangles closed by triangles with a ghost vertex.       *)
(*                                                                         *)
(* Vertices are identifiers 1, 2, ...; 0 is the ghost vertex; P maps an    *)
(* identifier to its point.  A triangle is a triple in the rotation that   *)
(* starts with its least identifier, so triangles are equal iff they are   *)
(* cyclically equal, and ghost triangles start with 0.                     *)
(*                                                                         *)
(* A domain is a record                                                    *)
(*   outer : sequence of identifiers, counterclockwise boundary loop       *)
(*   holes : set of counterclockwise loops                                 *)
(*   segs  : set of pairs, the segment constraints                         *)
(*   verts : set of free vertices                                          *)
(***************************************************************************)
EXTENDS Exact, FiniteSets, SequencesExt

Ghost == 0

Tri(a, b, c) ==
  IF a <= b /\ a <= c THEN <<a, b, c>>
  ELSE IF b <= a /\ b <= c THEN <<b, c, a>>
  ELSE <<c, a, b>>

Canon(t) == Tri(t[1], t[2], t[3])

IsGhost(t) == t[1] = Ghost
Solid(M)   == {t \in M : t[1] # Ghost}
Ghosts(M)  == {t \in M : t[1] = Ghost}
Corners(t) == {t[1], t[2], t[3]}
Verts(M)   == UNION {Corners(t) : t \in M} \ {Ghost}

DEdges(t) == {<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>}
AllDE(M)  == UNION {DEdges(t) : t \in M}
Rev(e)    == <<e[2], e[1]>>
Both(E)   == E \cup {Rev(e) : e \in E}
Third(t, e) == CHOOSE v \in Corners(t) : v # e[1] /\ v # e[2]

\* the triangle to the left of each directed edge
AdjOf(M) == [e \in AllDE(M) |-> CHOOSE t \in M : e \in DEdges(t)]

LoopEdges(l) == {<<l[i], l[(i % Len(l)) + 1]>> : i \in DOMAIN l}
LoopSet(l)   == {l[i] : i \in DOMAIN l}
PointsOf(P, l) == [i \in DOMAIN l |-> P[l[i]]]

----------------------------------------------------------------------------
(* recorded sets, triangles and adjacency *)

SeqSet(s) == {s[i] : i \in DOMAIN s}
PairSet(s) == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
TriSet(s) == {Canon(s[i]) : i \in DOMAIN s}
AdjSet(s) == {<<s[i][1], s[i][2], Canon(s[i][3])>> : i \in DOMAIN s}

\* the adjacency of a set of triangles
AdjPairs(M) == UNION {{<<d[1], d[2], t>> : d \in DEdges(t)} : t \in M}

----------------------------------------------------------------------------
(* domains *)

LoopCons(D) == LoopEdges(D.outer) \cup UNION {LoopEdges(h) : h \in D.holes}
Constraints(D) == LoopCons(D) \cup D.segs
DomVerts(D) == LoopSet(D.outer) \cup UNION {LoopSet(h) : h \in D.holes}
                 \cup {e[1] : e \in D.segs} \cup {e[2] : e \in D.segs} \cup D.verts

(* no two constraint edges meet at an angle smaller than 60 degrees *)
NoSharpAngle(P, D) ==
  LET B == Both(Constraints(D)) IN
  \A e \in B, f \in B : (e[1] = f[1] /\ e[2] # f[2]) => ~Sharp(P[e[1]], P[e[2]], P[f[2]])

(* the ghost triangles of a domain: one on the outer side of each loop edge *)
GhostRing(D) ==
  {Tri(e[2], e[1], Ghost) : e \in LoopEdges(D.outer)}
  \cup UNION {{Tri(e[1], e[2], Ghost) : e \in LoopEdges(h)} : h \in D.holes}

----------------------------------------------------------------------------
(* properties of a mesh *)

\* every directed edge has one triangle to its left and one to its right
Closed(M) ==
  LET E == AllDE(M) IN
  /\ \A t \in M : Cardinality(Corners(t)) = 3
  /\ Cardinality(E) = 3 * Cardinality(M)
  /\ \A e \in E : Rev(e) \in E

Counterclockwise(P, M) == \A t \in Solid(M) : Orient(P[t[1]], P[t[2]], P[t[3]]) = 1

(* The record of the triangles and of the adjacency is one closed mesh of   *)
(* counterclockwise triangles.                                             *)
Consistent(P, tris, adj) ==
  LET M == TriSet(tris) IN
  /\ Len(tris) = Cardinality(M)
  /\ Closed(M)
  /\ Counterclockwise(P, M)
  /\ Len(adj) = 3 * Cardinality(M)
  /\ AdjSet(adj) = AdjPairs(M)

(* The ghost triangles are those of the domain's loops: with Closed and     *)
(* Counterclockwise, the solid triangles' boundary is the domain's, so they *)
(* cover every point of the domain once and no other point.                 *)
Bounded(M, D) == Ghosts(M) = GhostRing(D)

AreaCovered(P, M, D, e) ==
  AreaEq(SetToSeq({<<P[t[1]], P[t[2]], P[t[3]]>> : t \in Solid(M)}),
         <<PointsOf(P, D.outer)>>,
         SetToSeq({PointsOf(P, h) : h \in D.holes}), e)

Complete(M, D) == Verts(Solid(M)) = DomVerts(D)

Conforming(M, D) == LET E == AllDE(M) IN \A e \in Constraints(D) : e \in E /\ Rev(e) \in E

\* no edge but the constraints can be flipped: neither opposite vertex is
\* inside the circumcircle of the other triangle
LocallyDelaunay(P, M, C, e) ==
  LET A == AdjOf(M)  B == Both(C) IN
  \A t \in Solid(M) : \A d \in DEdges(t) :
    (d \notin B /\ Rev(d) \in DOMAIN A) =>
      LET u == A[Rev(d)] IN
      IsGhost(u) \/ InCircleT(P[t[1]], P[t[2]], P[t[3]], P[Third(u, d)], e) <= 0

\* no flip is possible without breaking LocallyDelaunay
StrictlyDelaunay(P, M, C) ==
  LET A == AdjOf(M)  B == Both(C) IN
  \A t \in Solid(M) : \A d \in DEdges(t) :
    (d \notin B /\ Rev(d) \in DOMAIN A) =>
      LET u == A[Rev(d)] IN
      IsGhost(u) \/ InCircle(P[t[1]], P[t[2]], P[t[3]], P[Third(u, d)]) = 0 - 1

IsCDT(P, M, D) ==
  /\ Closed(M)
  /\ Counterclockwise(P, M)
  /\ Bounded(M, D)
  /\ Complete(M, D)
  /\ Conforming(M, D)
  /\ LocallyDelaunay(P, M, Constraints(D), 0)

=============================================================================

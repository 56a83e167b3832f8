------------------------------- MODULE Domain -------------------------------
(***************************************************************************)
(* The domain a Triangulator holds, as a state machine.  The state is a    *)
(* domain record (see Mesh.tla); its actions are the three insertions,     *)
(* each of which either is accepted or rejects with the conflicting set    *)
(* and leaves the state as it was.                                         *)
(***************************************************************************)
EXTENDS Mesh

(* 1: p is strictly inside the loop of points L, 0: on it, -1: outside.     *)
(* The ray from p to the right crosses an edge if one end is above p and   *)
(* the other isn't.                                                        *)
PointInLoop(L, p) ==
  LET E == LoopEdges(L) IN
  IF \E e \in E : OnSeg(e[1], e[2], p) THEN 0
  ELSE LET X == {e \in E :
                   LET a == e[1]  b == e[2]
                   IN  \/ CmpY(a, p) <= 0 /\ CmpY(b, p) = 1 /\ Orient(a, b, p) = 1
                       \/ CmpY(b, p) <= 0 /\ CmpY(a, p) = 1 /\ Orient(b, a, p) = 1}
       IN  IF Cardinality(X) % 2 = 1 THEN 1 ELSE 0 - 1

PointIn(P, l, p) == PointInLoop(PointsOf(P, l), p)

\* closed segments a b and c d have a common point
Meet(a, b, c, d) ==
  \/ OnSeg(a, b, c) \/ OnSeg(a, b, d) \/ OnSeg(c, d, a) \/ OnSeg(c, d, b)
  \/ Orient(a, b, c) * Orient(a, b, d) = 0 - 1 /\ Orient(c, d, a) * Orient(c, d, b) = 0 - 1

\* they cross at a point interior to both
Cross(a, b, c, d) ==
  Orient(a, b, c) * Orient(a, b, d) = 0 - 1 /\ Orient(c, d, a) * Orient(c, d, b) = 0 - 1

\* they share more than one point
Overlap(a, b, c, d) ==
  /\ Orient(a, b, c) = 0 /\ Orient(a, b, d) = 0 /\ a # b /\ c # d
  /\ Cardinality({q \in {a, b, c, d} : OnSeg(a, b, q) /\ OnSeg(c, d, q)}) > 1

EdgesMeet(P, E, F) == \E e \in E, f \in F : Meet(P[e[1]], P[e[2]], P[f[1]], P[f[2]])

\* a loop without repeated vertices whose edges only meet at common ends
SimpleLoop(P, l) ==
  /\ Len(l) >= 3
  /\ \A i, j \in DOMAIN l : i < j => P[l[i]] # P[l[j]]
  /\ LET E == LoopEdges(l) IN
     \A e, f \in E : e # f =>
       LET a == P[e[1]]  b == P[e[2]]  c == P[f[1]]  d == P[f[2]] IN
       IF e[2] = f[1] THEN ~OnSeg(a, b, d) /\ ~OnSeg(c, d, a)
       ELSE IF f[2] = e[1] THEN ~OnSeg(c, d, b) /\ ~OnSeg(a, b, c)
       ELSE ~Meet(a, b, c, d)
  /\ LoopSign(PointsOf(P, l)) = 1

\* the closed region of loop g is strictly inside of loop l
LoopInside(P, l, g) ==
  /\ ~EdgesMeet(P, LoopEdges(l), LoopEdges(g))
  /\ PointIn(P, l, P[g[1]]) = 1

\* the closed regions of g and l have no common point
LoopApart(P, l, g) ==
  /\ ~EdgesMeet(P, LoopEdges(l), LoopEdges(g))
  /\ PointIn(P, l, P[g[1]]) = 0 - 1
  /\ PointIn(P, g, P[l[1]]) = 0 - 1

(* A valid domain: its constraints only meet at common ends, no other vertex *)
(* is on one of them (not even nearly: ends that are rounded crossings).     *)
ValidDomain(P, D) ==
  LET C == Constraints(D)  V == DomVerts(D) IN
  /\ SimpleLoop(P, D.outer)
  /\ \A e \in C : \A v \in V \ {e[1], e[2]} : ~OnSegT(P[e[1]], P[e[2]], P[v], 9)
  /\ \A e, f \in C : ~Cross(P[e[1]], P[e[2]], P[f[1]], P[f[2]])

SegInside(P, l, s) == ~EdgesMeet(P, LoopEdges(l), {s}) /\ PointIn(P, l, P[s[1]]) = 1
SegApart(P, l, s)  == ~EdgesMeet(P, LoopEdges(l), {s}) /\ PointIn(P, l, P[s[1]]) = 0 - 1

----------------------------------------------------------------------------
(* insert_vertices *)

BadVertices(P, D, vs) ==
  {v \in vs : PointIn(P, D.outer, P[v]) # 1 \/ \E h \in D.holes : PointIn(P, h, P[v]) # 0 - 1}

InteriorOf(P, s, v) == v # s[1] /\ v # s[2] /\ OnSeg(P[s[1]], P[s[2]], P[v])

\* s cut at the identifiers of C that lie on it
Cut(P, s, C) ==
  LET K == {s[1], s[2]} \cup C
      Before(u, v) == Along(P[s[1]], P[s[2]], P[u], P[v]) = 1
  IN  {<<u, v>> \in K \X K : Before(u, v) /\ ~\E w \in K : Before(u, w) /\ Before(w, v)}

AfterVertices(P, D, vs) ==
  [D EXCEPT !.segs  = UNION {Cut(P, s, {v \in vs : InteriorOf(P, s, v)}) : s \in D.segs},
            !.verts = @ \cup {v \in vs : \A s \in D.segs : ~OnSeg(P[s[1]], P[s[2]], P[v])}]

----------------------------------------------------------------------------
(* insert_segments *)

BadSegments(P, D, ss) ==
  {s \in ss : ~SegInside(P, D.outer, s) \/ \E h \in D.holes : ~SegApart(P, h, s)}

(* Crossings are rounded to doubles.  Whether a vertex is on a segment that  *)
(* ends at a rounded crossing may then hang on the last bit; the outcome is *)
(* specified if it doesn't.                                                 *)
Decided(P, V, S) == \A v \in V, s \in S : OnSegT(P[s[1]], P[s[2]], P[v], 9) => OnSeg(P[s[1]], P[s[2]], P[v])

(* The same for the arrangement of the segments A with the vertices V and   *)
(* the crossings in X: it is specified if at most two segments meet at a    *)
(* rounded crossing, and a segment with a rounded crossing isn't also cut   *)
(* at a given vertex.                                                       *)
Harmless(P, A, X, V) ==
  /\ Decided(P, V, A)
  /\ \A x \in X :
       LET T == {s \in A : OnSegT(P[s[1]], P[s[2]], P[x], 9)}
           R == {s \in T : ~OnSeg(P[s[1]], P[s[2]], P[x])}
       IN  R = {} \/ (Cardinality(T) <= 2 /\ \A s \in T : ~\E v \in V : InteriorOf(P, s, v))

SegPoints(D, S) == D.verts \cup {s[1] : s \in S} \cup {s[2] : s \in S}

\* segments that share more than a point are outside of the contract
NoOverlap(P, S) ==
  \A s \in S, t \in S : (s # t) => ~Overlap(P[s[1]], P[s[2]], P[t[1]], P[t[2]])

(* The arrangement of the old and the new segments: each is cut at the      *)
(* vertices on it, at the ends of others on it and where others cross it.   *)
(* X: identifiers the implementation introduced.  Directions are irrelevant.*)
CutsOf(P, D, S, X, s) ==
  {v \in D.verts \cup {t[1] : t \in S} \cup {t[2] : t \in S} : InteriorOf(P, s, v)}
  \cup {x \in X : \E t \in S : /\ Cross(P[s[1]], P[s[2]], P[t[1]], P[t[2]])
                               /\ OnSegT(P[s[1]], P[s[2]], P[x], 9)
                               /\ OnSegT(P[t[1]], P[t[2]], P[x], 9)}

CrossingsKnown(P, S, X) ==
  \A s \in S, t \in S :
    Cross(P[s[1]], P[s[2]], P[t[1]], P[t[2]]) =>
      \E x \in X : OnSegT(P[s[1]], P[s[2]], P[x], 9) /\ OnSegT(P[t[1]], P[t[2]], P[x], 9)

SegVertsAfter(P, D, ss) ==
  D.verts \ {v \in D.verts : \E s \in ss : OnSeg(P[s[1]], P[s[2]], P[v])}

SegmentsAfter(P, D, ss, X) ==
  LET S == D.segs \cup ss IN UNION {Both(Cut(P, s, CutsOf(P, D, S, X, s))) : s \in S}

----------------------------------------------------------------------------
(* insert_hole *)

HoleConflicts(P, D, h) ==
  LET loops == (IF LoopInside(P, D.outer, h) THEN {} ELSE LoopSet(D.outer))
               \cup UNION {LoopSet(g) : g \in {g \in D.holes : ~LoopApart(P, g, h)}}
      segs  == {s \in D.segs : ~SegApart(P, h, s)}
  IN  IF loops # {} THEN loops ELSE {s[1] : s \in segs} \cup {s[2] : s \in segs}

AfterHole(P, D, h) ==
  [D EXCEPT !.holes = @ \cup {h},
            !.verts = {v \in @ : PointIn(P, h, P[v]) = 0 - 1}]

=============================================================================

------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* The building blocks of the triangulator as operators on identified      *)
(* points: relative position of polylines, boolean operations, arrangement *)
(* of edges.  A polyline is a record [o |-> opened?, v |-> identifiers].   *)
(***************************************************************************)
EXTENDS Domain, Measure, TLC

Seq2Set(s) == {s[i] : i \in DOMAIN s}

\* directed edges of a polyline, in order
Pairs(l) == [i \in 1 .. (IF l.o THEN Len(l.v) - 1 ELSE Len(l.v)) |-> <<l.v[i], l.v[(i % Len(l.v)) + 1]>>]
PolyEdges(l) == Seq2Set(Pairs(l))

\* edges only meet at the ends they share
SimpleChain(P, l) ==
  /\ \A i, j \in DOMAIN l.v : i < j => P[l.v[i]] # P[l.v[j]]
  /\ \A e, f \in PolyEdges(l) : e # f =>
       LET a == P[e[1]]  b == P[e[2]]  c == P[f[1]]  d == P[f[2]] IN
       IF e[2] = f[1] THEN ~OnSeg(a, b, d) /\ ~OnSeg(c, d, a)
       ELSE IF f[2] = e[1] THEN ~OnSeg(c, d, b) /\ ~OnSeg(a, b, c)
       ELSE ~Meet(a, b, c, d)

Simple(P, l) == IF l.o THEN SimpleChain(P, l) ELSE Len(l.v) >= 3 /\ SimpleChain(P, l)

CCW(P, l) == ~l.o /\ LoopSign(PointsOf(P, l.v)) = 1

----------------------------------------------------------------------------
(* pieces: the directed edges of a polyline cut where they meet another one *)

IsCrossing(P, s, t, x) ==
  /\ Cross(P[s[1]], P[s[2]], P[t[1]], P[t[2]])
  /\ OnSegT(P[s[1]], P[s[2]], P[x], 9)
  /\ OnSegT(P[t[1]], P[t[2]], P[x], 9)

\* the edge s cut at the vertices V on it, and at the crossings in X with edges T
PiecesOf(P, s, T, V, X) ==
  Cut(P, s, {v \in V : InteriorOf(P, s, v)} \cup {x \in X : \E t \in T : IsCrossing(P, s, t, x)})

Pieces(P, S, T, V, X) == UNION {PiecesOf(P, s, T, V, X) : s \in S}

\* where the middle of the piece is relative to the loop
SideOf(P, l, s) == PointInLoop([i \in DOMAIN l |-> Dbl(P[l[i]])], Sum(P[s[1]], P[s[2]]))

\* every crossing is known by exactly one identifier
CrossingsNamed(P, S, T, X) ==
  \A s \in S, t \in T :
    Cross(P[s[1]], P[s[2]], P[t[1]], P[t[2]]) => Cardinality({x \in X : IsCrossing(P, s, t, x)}) = 1

----------------------------------------------------------------------------
(* relative position of polylines: <<>> if b is on both sides of a,         *)
(* otherwise the side b is on (0 if it is part of the boundary) and whether *)
(* it meets the boundary                                                    *)

Continence(P, a, b) ==
  IF a.o THEN <<>>
  ELSE LET A == PolyEdges(a)  B == PolyEdges(b)
           W == Pieces(P, B, {}, Seq2Set(a.v), {})
           sides == ({SideOf(P, a.v, w) : w \in W} \cup {PointIn(P, a.v, P[v]) : v \in Seq2Set(b.v)}) \ {0}
           crossing == \E e \in A, f \in B : Cross(P[e[1]], P[e[2]], P[f[1]], P[f[2]])
       IN  IF crossing \/ Cardinality(sides) = 2 THEN <<>>
           ELSE IF sides = {} THEN << <<0, 1>> >>
           ELSE << <<CHOOSE s \in sides : TRUE, IF EdgesMeet(P, A, B) THEN 1 ELSE 0>> >>

----------------------------------------------------------------------------
(* boolean operations on simple counterclockwise loops                     *)

RevLoop(l) == [i \in DOMAIN l |-> l[Len(l) + 1 - i]]

(* The directed boundary pieces of  a op b, interior on their left.  Where  *)
(* both boundaries run the same way the piece is a's.                       *)
Operands(P, op, a, b, X) ==
  LET bb == IF op = "minus" THEN RevLoop(b) ELSE b
      V == Seq2Set(a) \cup Seq2Set(b)
  IN  [A |-> Pieces(P, LoopEdges(a), LoopEdges(b), V, X),
       B |-> Pieces(P, LoopEdges(bb), LoopEdges(a), V, X)]

Result(P, op, a, b, W) ==
  {s \in W.A : LET w == SideOf(P, b, s) IN
                 IF w = 0 THEN s \in W.B ELSE w = (IF op = "inter" THEN 1 ELSE 0 - 1)}
  \cup {s \in W.B : SideOf(P, a, s) = (IF op = "union" THEN 0 - 1 ELSE 1)}

\* no vertex is on two of the loops, or twice on one
Unpinched(S) == Cardinality({s[1] : s \in S}) = Cardinality(S)

RECURSIVE Follow(_, _)
Follow(S, L) ==
  LET n == {s \in S \ L : \E t \in L : t[2] = s[1]}
  IN  IF n = {} THEN L ELSE Follow(S, L \cup n)

(* the loops of an unpinched set of pieces, as sequences of vertices; N is  *)
(* the successor of each vertex                                             *)
RECURSIVE Walk(_, _)
Walk(N, q) ==
  LET last == q[Len(q)] IN
  IF last \notin DOMAIN N THEN q
  ELSE IF N[last] \in Seq2Set(q) THEN q
  ELSE Walk(N, Append(q, N[last]))

RECURSIVE Cycles(_, _)
Cycles(N, V) ==
  IF V = {} THEN {}
  ELSE LET q == TLCEval(Walk(N, <<CHOOSE v \in V : TRUE>>)) IN {q} \cup Cycles(N, V \ Seq2Set(q))

LoopSeqs(S) ==
  LET N == TLCEval([v \in {s[1] : s \in S} |-> (CHOOSE s \in S : s[1] = v)[2]])
  IN  Cycles(N, DOMAIN N)

LoopsOf(S) == {LoopEdges(q) : q \in LoopSeqs(S)}
OuterLoops(P, S) == {LoopEdges(q) : q \in {q \in LoopSeqs(S) : LoopSign(PointsOf(P, q)) = 1}}

\* a loop of the result, cut at all known vertices
CutLoop(P, l, V, X) ==
  UNION {Cut(P, s, {v \in V : InteriorOf(P, s, v)} \cup {x \in X : x \notin {s[1], s[2]} /\ OnSegT(P[s[1]], P[s[2]], P[x], 9)}) : s \in LoopEdges(l)}

\* no common point of the two regions;  b strictly inside a
Apart(P, a, b) == LoopApart(P, a, b)
Within(P, a, b) == LoopInside(P, a, b)

BoxApart(P, a, b) ==
  \/ \A i \in DOMAIN a, j \in DOMAIN b : CmpX(P[a[i]], P[b[j]]) = 0 - 1
  \/ \A i \in DOMAIN a, j \in DOMAIN b : CmpX(P[a[i]], P[b[j]]) = 1
  \/ \A i \in DOMAIN a, j \in DOMAIN b : CmpY(P[a[i]], P[b[j]]) = 0 - 1
  \/ \A i \in DOMAIN a, j \in DOMAIN b : CmpY(P[a[i]], P[b[j]]) = 1

----------------------------------------------------------------------------
(* sets of directed edges *)

\* E is one directed cycle
IsCycle(E) ==
  /\ Cardinality(E) >= 3
  /\ Cardinality({e[1] : e \in E}) = Cardinality(E)
  /\ Cardinality({e[2] : e \in E}) = Cardinality(E)
  /\ \A e \in E : e[1] # e[2]
  /\ {e[1] : e \in E} = {e[2] : e \in E}
  /\ LET e == CHOOSE e \in E : TRUE IN Follow(E, {e}) = E

\* the edges of the triangles T without an opposite
HullEdges(T) == LET E == AllDE(T) IN {e \in E : Rev(e) \notin E}

\* no two different edges of the same direction share more than a point
NoTwins(P, E) ==
  \A e, f \in E : e # f =>
    ~(/\ Overlap(P[e[1]], P[e[2]], P[f[1]], P[f[2]])
      /\ DotSgn(P[e[1]], P[e[2]], P[f[1]], P[f[2]]) = 1)

\* f continues e straight ahead
Continues(P, e, f) ==
  /\ e[2] = f[1]
  /\ Orient(P[e[1]], P[e[2]], P[f[2]]) = 0
  /\ DotSgn(P[e[1]], P[e[2]], P[f[1]], P[f[2]]) = 1

RECURSIVE LastOf(_, _, _)
LastOf(P, E, e) ==
  IF \E f \in E : Continues(P, e, f) THEN LastOf(P, E, CHOOSE f \in E : Continues(P, e, f)) ELSE e

\* the maximal straight runs of E
StraightRuns(P, E) ==
  {<<e[1], LastOf(P, E, e)[2]>> : e \in {e \in E : ~\E f \in E : Continues(P, f, e)}}

\* q is a chain of edges of E from a to b
IsChain(E, q, a, b) ==
  /\ Len(q) > 0 /\ q[1][1] = a /\ q[Len(q)][2] = b
  /\ \A i \in DOMAIN q : q[i] \in E
  /\ \A i \in 1 .. Len(q) - 1 : q[i][2] = q[i + 1][1]

\* the edges of E along s, in the direction of s
AlongEdge(P, E, s) ==
  {e \in E : /\ OnSeg(P[s[1]], P[s[2]], P[e[1]]) /\ OnSeg(P[s[1]], P[s[2]], P[e[2]])
             /\ DotSgn(P[s[1]], P[s[2]], P[e[1]], P[e[2]]) = 1}

RECURSIVE Reaches(_, _, _)
Reaches(E, a, b) == a = b \/ \E e \in E : e[1] = a /\ Reaches(E \ {e}, e[2], b)

=============================================================================

------------------------------- MODULE Refine -------------------------------
(***************************************************************************)
(* What a refinement has to deliver for the domain D.  Vertices of a       *)
(* refinement are rounded to doubles, so a split point lies on its         *)
(* constraint up to rounding.                                              *)
(***************************************************************************)
EXTENDS Domain

\* the vertices of V that divide the constraint s
OnConstraint(P, s, V) == {v \in V \ {s[1], s[2]} : OnSegT(P[s[1]], P[s[2]], P[v], 9)}

RECURSIVE Chain(_, _, _)
\* s[1], the vertices of K in their order along s, s[2]
Chain(P, s, K) ==
  IF K = {} THEN <<s[2]>>
  ELSE LET n == CHOOSE u \in K : \A w \in K : Along(P[s[1]], P[s[2]], P[u], P[w]) >= 0
       IN  <<n>> \o Chain(P, s, K \ {n})

SubEdges(P, s, V) == LET q == <<s[1]>> \o Chain(P, s, OnConstraint(P, s, V))
                     IN  {<<q[i], q[i + 1]>> : i \in 1 .. Len(q) - 1}

RECURSIVE SubLoop(_, _, _, _)
SubLoop(P, l, V, i) ==
  IF i > Len(l) THEN <<>>
  ELSE LET s == <<l[i], l[(i % Len(l)) + 1]>>
           q == Chain(P, s, OnConstraint(P, s, V))
       IN  <<l[i]>> \o SubSeq(q, 1, Len(q) - 1) \o SubLoop(P, l, V, i + 1)

(* The domain whose constraints are divided at the vertices V of the mesh   *)
Subdivision(P, D, V) ==
  [outer |-> SubLoop(P, D.outer, V, 1),
   holes |-> {SubLoop(P, h, V, 1) : h \in D.holes},
   segs  |-> UNION {SubEdges(P, s, V) : s \in D.segs},
   verts |-> {}]

\* the refinement is known to terminate for circumradius/edge ratios r >= sqrt 2
RatioAllowed(r) == r[1] * r[1] >= 2 * r[2] * r[2]

Unencroached(P, M, C) ==
  LET V == Verts(Solid(M)) IN
  \A s \in C : \A v \in V \ {s[1], s[2]} : DotAtT(P[s[1]], P[s[2]], P[v], 7) >= 0

GoodQuality(P, M, r) ==
  \A t \in Solid(M) : RatioCmp(P[t[1]], P[t[2]], P[t[3]], r[1], r[2], 7) <= 0

SmallArea(P, M, a) ==
  a = <<>> \/ \A t \in Solid(M) : AreaCmp(P[t[1]], P[t[2]], P[t[3]], a[1], a[2], 7) <= 0

=============================================================================

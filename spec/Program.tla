------------------------------ MODULE Program ------------------------------
(***************************************************************************)
(* What the command line program makes of its input: a sequence of actions *)
(* (include or remove a loop, constrain by segments or vertices) describes *)
(* a domain, which is meshed and refined, or the input is rejected.        *)
(* The state while reading is a record                                     *)
(*   inc, rem : sequences of loops                                         *)
(*   segs     : set of pairs     verts : set of identifiers                *)
(*   fine     : no malformed action so far                                 *)
(*   known    : nothing so far the specification leaves open               *)
(*   rings    : included loops that enclose a hole are specified too       *)
(***************************************************************************)
EXTENDS Refine, Geometry, TLC

Start == [inc |-> <<>>, rem |-> <<>>, segs |-> {}, verts |-> {}, fine |-> TRUE, known |-> TRUE, rings |-> FALSE]

----------------------------------------------------------------------------
(* reading *)

\* two edges of the closed loop l cross, or a vertex is in the middle of an edge
SelfCrossing(P, l) ==
  \E s, t \in LoopEdges(l) :
    s # t /\ (Cross(P[s[1]], P[s[2]], P[t[1]], P[t[2]]) \/ InteriorOf(P, s, t[1]) \/ InteriorOf(P, s, t[2]))

(* A circle of n vertices: all at the radius r, the first to the right of   *)
(* the center, counterclockwise at equal distances.                         *)
IsCircle(P, a) ==
  LET l == a.ids IN
  /\ \A i \in DOMAIN l : DistIs(a.radius, P[a.center], P[l[i]])
  /\ CmpY(P[l[1]], P[a.center]) = 0 /\ CmpX(P[l[1]], P[a.center]) = 1
  /\ \A e \in LoopEdges(l) : DistIs(a.chord, P[e[1]], P[e[2]])

\* malformed, whatever the other actions are
Malformed(P, a) ==
  CASE a.geometry \in {"polyline", "circle"} ->
         \/ a.intent \notin {"include", "remove"}
         \/ Len(a.ids) < 3
         \/ a.geometry = "polyline" /\ SelfCrossing(P, a.ids)
    [] a.geometry = "segments" ->
         \/ a.intent # "constraint"
         \/ IF a.assemble = <<>> THEN Len(a.ids) % 2 # 0
            ELSE \E i \in DOMAIN a.assemble : \/ Len(a.assemble[i]) < 2
                                              \/ a.assemble[i][1] >= Len(a.ids) \/ a.assemble[i][2] >= Len(a.ids)
    [] a.geometry = "vertices" -> a.intent # "constraint"
    [] OTHER -> TRUE

\* what a document cannot do without
Required == {"name", "actions", "params", "quality"}
Opened(S, has, rings) == [S EXCEPT !.fine = @ /\ Required \subseteq has, !.rings = rings]

Segs(a) ==
  IF a.assemble # <<>> THEN {<<a.ids[a.assemble[i][1] + 1], a.ids[a.assemble[i][2] + 1]>> : i \in DOMAIN a.assemble}
  ELSE {<<a.ids[2 * i - 1], a.ids[2 * i]>> : i \in 1 .. Len(a.ids) \div 2}

Plain(P, a) ==
  CASE a.geometry \in {"polyline", "circle"} -> SimpleLoop(P, a.ids) /\ (a.geometry = "circle" => IsCircle(P, a))
    [] a.geometry = "segments" -> \A s \in Segs(a) : s[1] # s[2]
    [] OTHER -> TRUE

Read(P, S, a) ==
  IF Malformed(P, a) THEN [S EXCEPT !.fine = FALSE]
  ELSE LET R == [S EXCEPT !.known = @ /\ Plain(P, a)] IN
  CASE a.geometry \in {"polyline", "circle"} ->
         IF a.intent = "include" THEN [R EXCEPT !.inc = Append(@, a.ids)] ELSE [R EXCEPT !.rem = Append(@, a.ids)]
    [] a.geometry = "segments" -> [R EXCEPT !.segs = @ \cup Segs(a)]
    [] a.geometry = "vertices" -> [R EXCEPT !.verts = @ \cup Seq2Set(a.ids)]

----------------------------------------------------------------------------
(* the region: in some included loop and in no removed one.  Its boundary   *)
(* are pieces of the loops, cut wherever these meet, with the region on     *)
(* their left.  X: names of the crossings.                                  *)

Loops(S) == S.inc \o S.rem
EdgesOf(L) == UNION {LoopEdges(L[i]) : i \in DOMAIN L}
VertsOf(L) == UNION {LoopSet(L[i]) : i \in DOMAIN L}

\* the arrangement doesn't hang on how crossings are rounded
Named(P, L, X) ==
  LET E == EdgesOf(L) IN Harmless(P, E, X, VertsOf(L)) /\ CrossingsNamed(P, E, E, X)

\* for each loop the directed pieces that have its inside on their left
Inner(P, L, X) ==
  LET E == EdgesOf(L)  V == VertsOf(L)
      own == TLCEval([i \in DOMAIN L |-> Pieces(P, LoopEdges(L[i]), E, V, X)])
      all == TLCEval(Both(UNION {own[i] : i \in DOMAIN L}))
  IN  TLCEval([i \in DOMAIN L |-> own[i] \cup {w \in all : w \notin own[i] /\ Rev(w) \notin own[i] /\ SideOf(P, L[i], w) = 1}])

Border(N, I, R) ==
  LET In == UNION {N[i] : i \in I} \ UNION {N[i] : i \in R}
  IN  {w \in In : Rev(w) \notin In}

Outers(P, K) == {q \in LoopSeqs(K) : LoopSign(PointsOf(P, q)) = 1}
Inners(P, K) == {q \in LoopSeqs(K) : LoopSign(PointsOf(P, q)) # 1}

\* a part of the region within a removed part
Island(P, K) ==
  LET A == Outers(P, K)  B == Inners(P, K) IN
  Cardinality(A) > 1 /\ \E a \in A, b \in B : PointIn(P, RevLoop(b), P[a[1]]) = 1

\* (a crossing within an edge may be rounded)
StraightAt(P, l, i) == OnSegT(P[l[((i + Len(l) - 2) % Len(l)) + 1]], P[l[(i % Len(l)) + 1]], P[l[i]], 9)
WithoutStraight(P, l) ==
  LET keep == SelectSeq([i \in DOMAIN l |-> i], LAMBDA i : ~StraightAt(P, l, i))
  IN  [i \in DOMAIN keep |-> l[keep[i]]]

DomainOf(P, K) ==
  [outer |-> WithoutStraight(P, CHOOSE q \in Outers(P, K) : TRUE),
   holes |-> {WithoutStraight(P, RevLoop(q)) : q \in Inners(P, K)},
   segs |-> {}, verts |-> {}]

(* "ok", "no" or "open": whether the region is one with which the program   *)
(* has to continue.  Loops are united and removed one by one, so the        *)
(* outcome is specified if no intermediate region touches itself in a       *)
(* vertex, or falls apart if the region doesn't.  Included loops that        *)
(* enclose a hole are a known finding: left open unless S.rings.            *)
Region(P, S, N) ==
  LET m == Len(S.inc)
      I == 1 .. m   R == m + 1 .. m + Len(S.rem)
      B == TLCEval([r \in SUBSET R |-> Border(N, I, r)])
      count(r) == Cardinality(Outers(P, B[r]))
  IN
  IF \/ \E i \in SUBSET I : i # {} /\ ~Unpinched(Border(N, i, {}))
     \/ \E r \in SUBSET R : ~Unpinched(B[r]) \/ ~Unpinched(Border(N, r, {}))
  THEN "open"
  ELSE IF count({}) > 1 THEN "no"
  ELSE IF (Inners(P, B[{}]) # {} /\ ~S.rings) \/ \E r \in SUBSET R : Island(P, B[r]) THEN "open"
  ELSE IF count(R) # 1 THEN "no"
  ELSE IF \E r \in SUBSET R : count(r) # 1 THEN "open"
  ELSE "ok"

----------------------------------------------------------------------------
(* the constraints *)

Ends(S) == {s[1] : s \in S.segs} \cup {s[2] : s \in S.segs}

\* whether the constraints are inside doesn't hang on the last bit
Clear(P, D, S) ==
  /\ Decided(P, Ends(S) \cup S.verts, Constraints(D))
  /\ Decided(P, DomVerts(D), S.segs)

\* no constraint is only nearly in line with a rounded edge of the boundary
Aligned(P, D, S) ==
  \A v \in Ends(S) \cup S.verts, e \in Constraints(D) :
    OnLineT(P[e[1]], P[e[2]], P[v], 9) => Orient(P[e[1]], P[e[2]], P[v]) = 0

Inside(P, D, S) == BadSegments(P, D, S.segs) = {} /\ BadVertices(P, D, S.verts) = {}

SegsKnown(P, S, X) ==
  /\ NoOverlap(P, S.segs)
  /\ Harmless(P, S.segs, X, Ends(S) \cup S.verts)
  /\ CrossingsNamed(P, S.segs, S.segs, X)

Constrained(P, D, S, X) ==
  LET D1 == [D EXCEPT !.verts = S.verts] IN
  [D1 EXCEPT !.segs = UNION {Cut(P, s, CutsOf(P, D1, S.segs, X, s)) : s \in S.segs}]

----------------------------------------------------------------------------
(* the outcome: <<"rejected">>, <<"open">> or <<"accepted", domain>>        *)

Outcome(P, S, X) ==
  IF ~S.fine THEN <<"rejected">>
  ELSE IF S.inc = <<>> THEN <<"rejected">>
  ELSE IF ~S.known \/ ~Named(P, Loops(S), X) THEN <<"open">>
  ELSE LET N == Inner(P, Loops(S), X)
           r == Region(P, S, N)
       IN  IF r = "no" THEN <<"rejected">>
           ELSE IF r = "open" THEN <<"open">>
           ELSE LET D == DomainOf(P, Border(N, DOMAIN S.inc, Len(S.inc) + 1 .. Len(Loops(S)))) IN
                IF ~Clear(P, D, S) THEN <<"open">>
                ELSE IF ~Inside(P, D, S) THEN <<"rejected">>
                ELSE IF ~SegsKnown(P, S, X) \/ ~Aligned(P, D, S) THEN <<"open">>
                ELSE <<"accepted", Constrained(P, D, S, X)>>

=============================================================================

------------------------------ MODULE BuildMC ------------------------------
(***************************************************************************)
(* Build.tla for all domains on a small lattice: every simple loop through *)
(* points of the lattice 0..N x 0..N (Mode "loops"; with the free vertices *)
(* and one segment that fit), or a square with a hole, segments and free   *)
(* vertices in it (Mode "holes").                                          *)
(***************************************************************************)
EXTENDS Domain, TLC, Json

CONSTANTS N, Mode, Size, Dump, Scale

Id(x, y) == 1 + x + (N + 1) * y
Ids == 1 .. (N + 1) * (N + 1)
Point == [i \in Ids |-> <<Scale * ((i - 1) % (N + 1)), Scale * ((i - 1) \div (N + 1))>>]

VARIABLES P, goal, D, M, C, new, rest, seg, q, fails, w, ph
INSTANCE Build

\* the simple loops that start like s
RECURSIVE Paths(_, _, _)
Paths(S, k, U) == IF k = 0 THEN {} ELSE
  LET L == {Append(s, v) : s \in S, v \in U}
      K == {l \in L : \A i \in 1 .. Len(l) - 1 : l[i] # l[Len(l)] /\ l[1] < l[Len(l)]}
  IN  K \cup Paths(K, k - 1, U)

LoopsFrom(s, U, k) == {l \in {s} \cup Paths({s}, k - Len(s), U) : Len(l) >= 3 /\ SimpleLoop(Point, l)}

\* they start with their least vertex
Starts(U) == {s \in U \X U \X U : s[1] < s[2] /\ s[1] < s[3] /\ s[2] # s[3]}

Dom(o, h, s, v) == [outer |-> o, holes |-> h, segs |-> s, verts |-> v]

Free(o) == {v \in Ids : PointIn(Point, o, Point[v]) = 1}

LoopGoals(s) ==
  UNION {{Dom(o, {}, {}, v) : v \in SUBSET Free(o)}
         \cup UNION {{Dom(o, {}, {e}, Free(o) \ {e[1], e[2]}) : e \in {e \in Free(o) \X Free(o) : e[1] < e[2]}}} : o \in LoopsFrom(s, Ids, Size)}

Inner == {i \in Ids : Point[i][1] \in {Scale * k : k \in 1 .. N - 1} /\ Point[i][2] \in {Scale * k : k \in 1 .. N - 1}}
Square == <<Id(0, 0), Id(N, 0), Id(N, N), Id(0, N)>>
Segments == {s \in Inner \X Inner : s[1] < s[2]}

HoleGoals(s) ==
  LET H == {{h} : h \in LoopsFrom(s, Inner, Size)} \cup {{}} IN
  {Dom(Square, h, e, v) : h \in H, e \in {{}} \cup {{a} : a \in Segments} \cup {{a, b} : a \in Segments, b \in Segments},
                          v \in {{}, {Id(2, 2)}, {Id(1, 1), Id(2, 3)}}}

Suits(G) ==
  /\ \A v \in G.verts : v \in Ids
  /\ G.verts \cap (DomVerts([G EXCEPT !.verts = {}])) = {}
  /\ \A h \in G.holes, v \in G.verts \cup {s[1] : s \in G.segs} \cup {s[2] : s \in G.segs} : PointIn(Point, h, Point[v]) = 0 - 1
  /\ ValidDomain(Point, G)

\* first the start of a loop is chosen, then the domain
Init ==
  /\ ph = "choose" /\ P = Point
  /\ goal \in {Dom(s, {}, {}, {}) : s \in IF Mode = "loops" THEN Starts(Ids) ELSE Starts(Inner)}
  /\ D = Nothing /\ M = {} /\ C = {} /\ new = {} /\ rest = {} /\ seg = <<>> /\ q = <<>> /\ fails = 0 /\ w = {}

Choose ==
  /\ ph = "choose"
  /\ \E G \in IF Mode = "loops" THEN LoopGoals(goal.outer) ELSE HoleGoals(goal.outer) :
       Suits(G) /\ Begin(G)
  /\ UNCHANGED P

Coords(l) == [i \in DOMAIN l |-> Point[l[i]]]

\* the goals, for the harness to build them in the implementation
Printed == (Dump /\ ph = "insert" /\ Cardinality(M) = 2) =>
  PrintT(ToJson([outer |-> Coords(goal.outer), holes |-> {Coords(h) : h \in goal.holes},
                 segs |-> {Coords(s) : s \in goal.segs}, verts |-> {Point[v] : v \in goal.verts}]))

Spec == Init /\ [][Choose \/ Next]_vars /\ WF_vars(Choose \/ Next)
\* only the goals
Still == Init /\ [][Choose]_vars
=============================================================================

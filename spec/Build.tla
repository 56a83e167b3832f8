------------------------------- MODULE Build -------------------------------
(***************************************************************************)
(* How a triangulation of a domain is built, as a transition system.  Each *)
(* action is one step of the implementation's procedures; what depends on  *)
(* the iteration order of hash tables there is a nondeterministic choice   *)
(* here, so the behaviours are those of every schedule:                    *)
(*   Insert  : any pending vertex, from any triangle it is in conflict     *)
(*             with (Bowyer-Watson)                                        *)
(*   Recover : the edges across any missing constraint are flipped, in any *)
(*             initial order                                               *)
(*   Legalize: any modified edge is flipped if it isn't locally Delaunay   *)
(*   Carve   : what is outside of the loop is replaced by ghost triangles  *)
(* The loops of the domain come first (outer, then holes in any order),    *)
(* then the segments in any order, then the free vertices.                 *)
(***************************************************************************)
EXTENDS Domain, TLC

VARIABLES P,      \* identifiers to points (fixed here, see RefineMC.tla)
          goal,   \* the domain to build
          D,      \* the part of it the current stage completes
          M,      \* the triangles
          C,      \* the constraints so far
          new,    \* the constraints of the current stage
          rest,   \* vertices of the current stage still to be inserted
          seg,    \* the constraint being recovered, <<>> if none
          q, fails, \* edges across it, and the failed attempts to flip one
          w,      \* modified edges
          ph      \* "insert", "recover", "flip", "legal", "done"
vars == <<P, goal, D, M, C, new, rest, seg, q, fails, w, ph>>

p(v) == P[v]
Nothing == [outer |-> <<>>, holes |-> {}, segs |-> {}, verts |-> {}]

----------------------------------------------------------------------------
(* vertex insertion *)

Conflict(t, v) ==
  IF IsGhost(t) THEN Orient(p(t[2]), p(t[3]), p(v)) = 1
  ELSE InCircle(p(t[1]), p(t[2]), p(t[3]), p(v)) = 1

\* the cavity also grows across the outer edge the vertex is on
Taken(t, v) == Conflict(t, v) \/ (IsGhost(t) /\ OnSeg(p(t[2]), p(t[3]), p(v)))

RECURSIVE Grow(_, _, _, _)
Grow(A, S, v, B) ==
  LET N == {A[Rev(d)] : d \in {d \in AllDE(S) : d \notin B}} \ S
      G == {t \in N : Taken(t, v)}
  IN  IF G = {} THEN S ELSE Grow(A, S \cup G, v, B)

Fill(S, v, B) ==
  {Tri(d[1], d[2], v) : d \in {d \in AllDE(S) : d \in B \/ Rev(d) \notin AllDE(S)}}

Inserted(t, v) ==
  LET B == Both(C)
      S == Grow(AdjOf(M), {t}, v, B)
  IN  (M \ S) \cup Fill(S, v, B)

\* a constraint separates the vertex from the centroid of the triangle
Thrice(x) == <<3 * x[1], 3 * x[2]>>
Center3(t) == <<p(t[1])[1] + p(t[2])[1] + p(t[3])[1], p(t[1])[2] + p(t[2])[2] + p(t[3])[2]>>
Separated(t, v) ==
  ~IsGhost(t) /\ \E s \in C : Meet(Center3(t), Thrice(p(v)), Thrice(p(s[1])), Thrice(p(s[2])))

Containers(v) == {t \in Solid(M) : \A d \in DEdges(t) : Orient(p(d[1]), p(d[2]), p(v)) # 0 - 1}

\* where the cavity of v may start
Seeds(v) ==
  LET K == {t \in M : Conflict(t, v) /\ (C = {} \/ ~IsGhost(t))} IN
  {t \in K : ~Separated(t, v)}
  \cup (IF \E t \in K : Separated(t, v) THEN Containers(v) ELSE {})

Insert ==
  /\ ph = "insert" /\ rest # {}
  /\ \E v \in rest : \E t \in Seeds(v) :
       /\ M' = Inserted(t, v)
       /\ rest' = rest \ {v}
  /\ UNCHANGED <<goal, D, C, new, seg, q, fails, w, ph>>

----------------------------------------------------------------------------
(* constraint recovery *)

Crosses(d, s) == d[1] # Ghost /\ d[2] # Ghost /\ Cross(p(d[1]), p(d[2]), p(s[1]), p(s[2]))

Fixed(d) == d \in Both(C \cup new)

InsertEnds ==
  /\ ph = "insert" /\ rest = {}
  /\ ph' = "recover"
  /\ UNCHANGED <<goal, D, M, C, new, rest, seg, q, fails, w>>

Missing == {s \in new : s \notin AllDE(M)}

Across(s) == {d \in AllDE(M) : Crosses(d, s) /\ ~Fixed(d) /\ Orient(p(s[1]), p(s[2]), p(d[1])) = 0 - 1}

Recover ==
  /\ ph = "recover"
  /\ \E s \in Missing :
       /\ seg' = s
       /\ q' \in SetToAllKPermutations(Across(s)) /\ Len(q') = Cardinality(Across(s))
       /\ fails' = 0
       /\ ph' = "flip"
  /\ UNCHANGED <<goal, D, M, C, new, rest, w>>

\* the mesh with the edge d flipped and the new edge, or <<>>
Flipped(d) ==
  LET A == AdjOf(M) IN
  IF d \notin DOMAIN A \/ Rev(d) \notin DOMAIN A THEN <<>>
  ELSE LET t == A[d]  u == A[Rev(d)] IN
       IF IsGhost(t) \/ IsGhost(u) THEN <<>>
       ELSE LET a == Third(t, d)  b == Third(u, d) IN
            IF ~Crosses(<<b, a>>, d) THEN <<>>
            ELSE <<(M \ {t, u}) \cup {Tri(b, a, d[1]), Tri(a, b, d[2])}, <<b, a>>>>

Flip ==
  /\ ph = "flip"
  /\ IF fails >= Len(q) THEN
       /\ ph' = "legal" /\ UNCHANGED <<M, q, fails, w>>
     ELSE LET d == Head(q)  F == Flipped(d) IN
          /\ IF F = <<>> THEN /\ q' = Append(Tail(q), d) /\ fails' = fails + 1 /\ UNCHANGED <<M, w>>
             ELSE /\ M' = F[1] /\ fails' = 0
                  /\ IF Crosses(F[2], seg) THEN q' = Append(Tail(q), F[2]) /\ w' = w
                     ELSE q' = Tail(q) /\ w' = w \cup {F[2]}
          /\ ph' = ph
  /\ UNCHANGED <<goal, D, C, new, rest, seg>>

Illegal(d) ==
  LET A == AdjOf(M) IN
  /\ d \in DOMAIN A /\ Rev(d) \in DOMAIN A /\ ~Fixed(d)
  /\ ~IsGhost(A[d]) /\ ~IsGhost(A[Rev(d)])
  /\ LET t == A[d] IN InCircle(p(t[1]), p(t[2]), p(t[3]), p(Third(A[Rev(d)], d))) = 1

Legalize ==
  /\ ph = "legal"
  /\ IF w = {} THEN ph' = "recover" /\ UNCHANGED <<M, w>>
     ELSE /\ ph' = ph
          /\ \E d \in w :
               IF Illegal(d) /\ Flipped(d) # <<>>
               THEN LET A == AdjOf(M) IN
                    /\ M' = Flipped(d)[1]
                    /\ w' = (w \ {d}) \cup ((DEdges(A[d]) \cup DEdges(A[Rev(d)])) \ {d, Rev(d)})
               ELSE M' = M /\ w' = w \ {d}
  /\ UNCHANGED <<goal, D, C, new, rest, seg, q, fails>>

----------------------------------------------------------------------------
(* carving *)

RECURSIVE Flood(_, _, _)
Flood(A, S, E) ==
  LET N == {A[Rev(d)] : d \in AllDE(S) \ E} \ S IN IF N = {} THEN S ELSE Flood(A, S \cup N, E)

\* E: the directed edges with what has to go on their left
Carved(E) ==
  LET A == AdjOf(M)
      S == Flood(A, {A[e] : e \in E}, E)
  IN  (M \ S) \cup {Tri(e[1], e[2], Ghost) : e \in E}

----------------------------------------------------------------------------
(* stages *)

Stage(N, vs, es, c) ==
  /\ D' = N /\ rest' = vs /\ new' = es /\ C' = c
  /\ seg' = <<>> /\ q' = <<>> /\ fails' = 0 /\ w' = {}

\* what remains of the goal: <<next domain, its new vertices, its new constraints>>
NextStages ==
  IF D.holes # goal.holes THEN
    {<<[D EXCEPT !.holes = @ \cup {h}], LoopSet(h), LoopEdges(h)>> : h \in goal.holes \ D.holes}
  ELSE IF D.segs # goal.segs THEN
    {<<[D EXCEPT !.segs = @ \cup {s}], {s[1], s[2]}, {s}>> : s \in goal.segs \ D.segs}
  ELSE IF D.verts # goal.verts THEN {<<[D EXCEPT !.verts = goal.verts], goal.verts, {}>>}
  ELSE {}

\* a stage is complete when its constraints are edges and its loop is carved
Finish ==
  /\ ph = "recover" /\ Missing = {}
  /\ LET E == IF C = {} THEN {Rev(e) : e \in LoopEdges(goal.outer)}
              ELSE IF Cardinality(new) > 1 THEN new ELSE {}
     IN  M' = IF E = {} THEN M ELSE Carved(E)
  /\ IF NextStages = {} THEN ph' = "done" /\ C' = C \cup new /\ UNCHANGED <<D, new, rest, seg, q, fails, w>>
     ELSE /\ ph' = "insert"
          /\ \E n \in NextStages : Stage(n[1], n[2] \ Verts(M), n[3], C \cup new)
  /\ UNCHANGED goal

Begin(G) ==
  /\ goal' = G
  /\ D' = [Nothing EXCEPT !.outer = G.outer]
  /\ M' = {Tri(G.outer[1], G.outer[2], Ghost), Tri(G.outer[2], G.outer[1], Ghost)}
  /\ C' = {} /\ new' = LoopEdges(G.outer)
  /\ rest' = LoopSet(G.outer) \ {G.outer[1], G.outer[2]}
  /\ seg' = <<>> /\ q' = <<>> /\ fails' = 0 /\ w' = {} /\ ph' = "insert"

Next == (Insert \/ InsertEnds \/ Recover \/ Flip \/ Legalize \/ Finish) /\ UNCHANGED P

----------------------------------------------------------------------------
(* what holds in every state *)

HullOf(V) ==
  {<<a, b>> \in V \X V : /\ a # b
                         /\ \A v \in V : Orient(P[a], P[b], P[v]) >= 0
                         /\ ~\E v \in V \ {a, b} : OnSeg(P[a], P[b], P[v])}

\* the triangles are always one closed mesh of counterclockwise triangles
Sound == Closed(M) /\ Counterclockwise(P, M)

\* before the outer loop is carved: the hull, Delaunay up to the constraints
Hull == (C = {} /\ \E u, v, x \in Verts(M) : Orient(P[u], P[v], P[x]) # 0) =>
          Ghosts(M) = {Tri(h[2], h[1], Ghost) : h \in HullOf(Verts(M))}

Delaunay == ph \in {"insert", "recover"} =>
  LocallyDelaunay(P, M, IF ph = "insert" THEN C ELSE (C \cup new) \cap Both(AllDE(M)), 0)

\* every pending vertex will find its place
Placed == (ph = "insert" /\ rest # {}) => \E v \in rest : Seeds(v) # {}

\* a recovery leaves nothing that crosses its segment
Recovered == (ph = "flip" /\ fails >= Len(q)) => q = <<>> /\ seg \in AllDE(M)

\* the stages complete the domain
Staged == (ph = "insert" /\ C # {} /\ rest = {} /\ new = {}) => IsCDT(P, M, D)

\* in the end: a constrained Delaunay triangulation of the domain
Final == ph = "done" => IsCDT(P, M, goal)

\* whatever is begun ends
Terminates == ph = "insert" ~> ph = "done"

=============================================================================

------------------------------ MODULE RefineMC ------------------------------
(***************************************************************************)
(* Refinement as a transition system, after the construction of a mesh     *)
(* (BuildMC): encroached subsegments are bisected; when there are none, a  *)
(* bad triangle gets a vertex at its circumcenter, unless that would       *)
(* encroach a subsegment, which is bisected instead.  Which subsegment or  *)
(* triangle is next is the implementation's hash order: a choice here.     *)
(*                                                                         *)
(* Coordinates are integers (Scale a power of two, so midpoints are exact; *)
(* circumcenters are rounded).                                             *)
(***************************************************************************)
EXTENDS BuildMC, Round, Refine

CONSTANTS Ratio, \* the quality, <<numerator, denominator>>
          Area,  \* the maximum area, or <<>>
          Most   \* vertices a refinement may need at most

ThreeHalves == <<3, 2>>
NoArea == <<>>
Half == <<"549755813888.0", "1">>   \* half a square of the lattice (for Scale = 2^20)

VARIABLE bnd     \* the boundary's subsegments, with the domain on their left
all == <<vars, bnd>>

Halved(S, s, m) == (S \ {s}) \cup {<<s[1], m>>, <<m, s[2]>>}

Hit(s) == \E v \in Verts(Solid(M)) : DotAt(P[s[1]], P[s[2]], P[v]) = 0 - 1

StartRefine ==
  /\ ph = "done" /\ NoSharpAngle(P, goal)
  /\ ph' = "refine"
  /\ C' = Constraints(goal)
  /\ bnd' = LoopEdges(goal.outer) \cup UNION {{Rev(e) : e \in LoopEdges(h)} : h \in goal.holes}
  /\ UNCHANGED <<P, goal, D, M, new, rest, seg, q, fails, w>>

\* the vertex at point x inserted into the cavity that starts with the triangles S,
\* where the subsegments B aren't crossed
Holds(t, x) == IsGhost(t) \/ InCircle(P[t[1]], P[t[2]], P[t[3]], x) = 1
RECURSIVE Cavity(_, _, _, _)
Cavity(A, S, x, B) ==
  LET G == {t \in {A[Rev(d)] : d \in {d \in AllDE(S) : d \notin B}} \ S : ~IsGhost(t) /\ InCircle(P[t[1]], P[t[2]], P[t[3]], x) = 1}
  IN  IF G = {} THEN S ELSE Cavity(A, S \cup G, x, B)

Filled(S, v) == {Tri(d[1], d[2], v) : d \in {d \in AllDE(S) : Rev(d) \notin AllDE(S)}}

(* Bisect the subsegment s: both triangles at it start a cavity.  A ghost   *)
(* triangle at it is replaced by two.                                      *)
Bisect(s) ==
  /\ Whole(P[s[1]], P[s[2]])
  /\ LET m == Len(P) + 1
         x == Middle(P[s[1]], P[s[2]])
         B == Both(C \ {s})
         A == AdjOf(M)
         S == Cavity(A, {A[s], A[Rev(s)]}, x, B)
     IN  /\ P' = Append(P, x)
         /\ M' = (M \ S) \cup Filled(S, m)
         /\ C' = Halved(C, s, m)
         /\ bnd' = IF s \in bnd THEN Halved(bnd, s, m)
                   ELSE IF Rev(s) \in bnd THEN Halved(bnd, Rev(s), m) ELSE bnd
  /\ UNCHANGED <<goal, D, new, rest, seg, q, fails, w, ph>>

Unencroach == ph = "refine" /\ \E s \in C : Hit(s) /\ Bisect(s)

Bad(t) == \/ RatioCmp(P[t[1]], P[t[2]], P[t[3]], Ratio[1], Ratio[2], 7) = 1
          \/ Area # <<>> /\ AreaCmp(P[t[1]], P[t[2]], P[t[3]], Area[1], Area[2], 7) = 1

Split ==
  /\ ph = "refine" /\ ~\E s \in C : Hit(s)
  /\ \E t \in Solid(M) :
       /\ Bad(t)
       /\ LET x == Center(P[t[1]], P[t[2]], P[t[3]])
              E == {s \in C : DotAt(P[s[1]], P[s[2]], x) = 0 - 1}
          IN  IF E # {} THEN \E s \in E : Bisect(s)
              ELSE LET v == Len(P) + 1
                       S == Cavity(AdjOf(M), {t}, x, Both(C))
                   IN  /\ P' = Append(P, x)
                       /\ M' = (M \ S) \cup Filled(S, v)
                       /\ UNCHANGED <<goal, D, C, new, rest, seg, q, fails, w, ph, bnd>>

Ready ==
  /\ ph = "refine" /\ (~\E s \in C : Hit(s)) /\ (~\E t \in Solid(M) : Bad(t))
  /\ ph' = "refined"
  /\ UNCHANGED <<P, goal, D, M, C, new, rest, seg, q, fails, w, bnd>>

RInit == Init /\ bnd = {}
RNext == ((Choose \/ Next) /\ UNCHANGED bnd) \/ StartRefine \/ Unencroach \/ Split \/ Ready
RSpec == RInit /\ [][RNext]_all

----------------------------------------------------------------------------

InRefine == ph \in {"refine", "refined"}

\* in every state a closed mesh, Delaunay up to the subsegments, of the same region
RSound == InRefine => Closed(M) /\ Counterclockwise(P, M) /\ LocallyDelaunay(P, M, C, 4)
RBounded == InRefine =>
  /\ Ghosts(M) = {Tri(e[2], e[1], Ghost) : e \in bnd}
  /\ AreaCovered(P, M, goal, 9)
RConforming == InRefine => \A s \in C : s \in AllDE(M) /\ Rev(s) \in AllDE(M)
RVertices == InRefine => Verts(Solid(M)) = DomVerts(goal) \cup Len(Point) + 1 .. Len(P)

\* the subsegments are those of the goal, divided by the vertices: what trace validation assumes
RSubdivided == InRefine =>
  Both(C) = Both(Constraints(Subdivision(P, goal, Verts(Solid(M)))))

\* it ends, and delivers
RFew == Len(P) <= Len(Point) + Most
RPlace == \A s \in C : (InRefine /\ Hit(s)) => Whole(P[s[1]], P[s[2]])
RDelivers == ph = "refined" =>
  /\ Unencroached(P, M, C)
  /\ GoodQuality(P, M, Ratio)
  /\ SmallArea(P, M, Area)
=============================================================================

------------------------------ MODULE DomainMC ------------------------------
(***************************************************************************)
(* Domain.tla explored from an empty domain: every insertion of a menu, in *)
(* every order, for as many steps as Depth says (or, when TLC simulates,   *)
(* random insertions of several elements).  Vertices are points of the     *)
(* lattice 0..4 x 0..4, times 60, so that all crossings of segments have   *)
(* integer coordinates, too; a point is its own identifier.                *)
(*                                                                         *)
(* With Dump, complete behaviours are printed: the harness replays them in *)
(* the implementation.                                                     *)
(***************************************************************************)
EXTENDS Domain, TLC, Json, Randomization

CONSTANTS Depth, Dump, Random, Lo, Hi

K == 60
VARIABLES D, hist
vars == <<D, hist>>

At(x, y) == <<K * x, K * y>>
Coord == 0 - 2 * K .. 8 * K
P == [v \in Coord \X Coord |-> v]

Outers == <<
  <<At(0, 0), At(4, 0), At(4, 4), At(0, 4)>>,
  <<At(0, 0), At(4, 0), At(4, 2), At(2, 2), At(2, 4), At(0, 4)>>,
  <<At(0, 0), At(2, 1), At(4, 0), At(4, 4), At(2, 3), At(0, 4)>>,
  <<At(2, 0), At(4, 2), At(2, 4), At(0, 2)>> >>

----------------------------------------------------------------------------
(* the menu *)

Less(u, v) == u[1] < v[1] \/ (u[1] = v[1] /\ u[2] < v[2])

Lattice(a, b) == {At(x, y) : x \in a .. b, y \in a .. b}
Points   == Lattice(Lo, Hi)
Segments == {s \in Points \X Points : Less(s[1], s[2])}

\* the loops of at most four vertices in a square of side 2 (or less)
Cell == {<<x, y>> : x \in 0 .. 2, y \in 0 .. 2}
Simple(l) == SimpleLoop([v \in Cell |-> v], l)
Shapes ==
  {l \in Cell \X Cell \X Cell : Less(l[1], l[2]) /\ Less(l[1], l[3]) /\ Simple(l)}
  \cup {l \in Cell \X Cell \X Cell \X Cell : (\A i \in 2 .. 4 : Less(l[1], l[i])) /\ Simple(l)}
Move(l, x, y) == [i \in DOMAIN l |-> At(l[i][1] + x, l[i][2] + y)]
Holes == {h \in {Move(l, x, y) : l \in Shapes, x \in Lo .. Hi, y \in Lo .. Hi} :
            \A i \in DOMAIN h : h[i] \in Points}

Op(k, a) == <<k, a>>

Menu == {Op("verts", {v}) : v \in Points} \cup {Op("segs", {s}) : s \in Segments} \cup {Op("hole", h) : h \in Holes}

\* (the argument keeps TLC from evaluating it once and for all)
Draw(h) ==
  LET r == RandomElement(1 .. 10 + 0 * Len(h))
      U == IF RandomElement(1 .. 3 + 0 * Len(h)) = 1 THEN Points ELSE Lattice(1, 3)
  IN
  IF r <= 3 THEN {Op("verts", RandomSubset(RandomElement(1 .. 3), U))}
  ELSE IF r <= 7 THEN {Op("segs", RandomSubset(RandomElement(1 .. 2), {s \in U \X U : Less(s[1], s[2])}))}
  ELSE {Op("hole", RandomElement({g \in Holes : \A i \in DOMAIN g : g[i] \in U}))}

----------------------------------------------------------------------------
(* the outcome of an operation *)

\* where the segments s and t cross
CrossPoint(s, t) ==
  LET ux == s[2][1] - s[1][1]  uy == s[2][2] - s[1][2]
      wx == t[2][1] - t[1][1]  wy == t[2][2] - t[1][2]
      d  == ux * wy - uy * wx
      n  == (t[1][1] - s[1][1]) * wy - (t[1][2] - s[1][2]) * wx
      Of(m) == IF d > 0 THEN m \div d ELSE (0 - m) \div (0 - d)
  IN  <<s[1][1] + Of(ux * n), s[1][2] + Of(uy * n)>>

Crossings(S) ==
  {CrossPoint(z[1], z[2]) : z \in {z \in S \X S : Cross(z[1][1], z[1][2], z[2][1], z[2][2])}}

Rejected(G, o) ==
  CASE o[1] = "verts" -> BadVertices(P, G, o[2]) # {}
    [] o[1] = "segs"  -> BadSegments(P, G, o[2]) # {}
    [] o[1] = "hole"  -> HoleConflicts(P, G, o[2]) # {}

Sorted(S) == {s \in Both(S) : Less(s[1], s[2])}

\* insertions outside of the contract aren't made
Allowed(G, o) ==
  IF o[1] # "segs" THEN TRUE
  ELSE IF Rejected(G, o) THEN TRUE
  ELSE NoOverlap(P, G.segs \cup Sorted(o[2]))

After(G, o) ==
  IF Rejected(G, o) THEN G
  ELSE CASE o[1] = "verts" -> LET N == AfterVertices(P, G, o[2]) IN [N EXCEPT !.segs = Sorted(@)]
         [] o[1] = "segs"  ->
              [G EXCEPT !.segs = Sorted(SegmentsAfter(P, G, o[2], Crossings(G.segs \cup o[2]))),
                        !.verts = SegVertsAfter(P, G, o[2])]
         [] o[1] = "hole"  -> AfterHole(P, G, o[2])

Init ==
  /\ \E l \in DOMAIN Outers : D = [outer |-> Outers[l], holes |-> {}, segs |-> {}, verts |-> {}]
  /\ hist = <<>>

Next ==
  /\ Len(hist) < Depth
  /\ \E o \in (IF Random THEN Draw(hist) ELSE Menu) :
       /\ Allowed(D, o)
       /\ D' = After(D, o)
       /\ hist' = Append(hist, o)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* what holds *)

Inside(v) == PointIn(P, D.outer, v) = 1 /\ \A h \in D.holes : PointIn(P, h, v) = 0 - 1

\* the domain is always one that can be triangulated
Valid ==
  /\ ValidDomain(P, D)
  /\ \A v \in D.verts : Inside(v) /\ \A s \in D.segs : ~OnSeg(s[1], s[2], v)
  /\ \A s \in D.segs : /\ Inside(s[1]) /\ Inside(s[2])
                       /\ ~EdgesMeet(P, LoopCons(D), {s})
  /\ \A s \in D.segs, t \in D.segs : s # t => ~Overlap(s[1], s[2], t[1], t[2])
  /\ \A h \in D.holes, g \in D.holes : h # g => LoopApart(P, h, g)
  /\ \A h \in D.holes : LoopInside(P, D.outer, h)

\* every accepted vertex and segment that wasn't removed by a later hole is there
Kept ==
  \A i \in DOMAIN hist :
    LET o == hist[i] IN
    (~\E j \in DOMAIN hist : hist[j][1] = "hole") =>
      CASE o[1] = "verts" -> (\A v \in o[2] : Inside(v)) => o[2] \subseteq DomVerts(D)
        [] o[1] = "segs" -> BadSegments(P, D, o[2]) = {} => UNION {{s[1], s[2]} : s \in o[2]} \subseteq DomVerts(D)
        [] OTHER -> TRUE

\* nothing grows back: what was rejected stays rejected, segments stay covered
Monotone ==
  /\ \A v \in Points : BadVertices(P, D, {v}) # {} => BadVertices(P, D', {v}) # {}
  /\ D.holes \subseteq D'.holes /\ D.outer = D'.outer
  /\ \A v \in Points, s \in D.segs : OnSeg(s[1], s[2], v) => \E t \in D'.segs : OnSeg(t[1], t[2], v)
  /\ DomVerts(D) \ D.verts \subseteq DomVerts(D')

Progress == [][Monotone]_vars

\* insertions that are both accepted commute
CommuteVertices(v) ==
  \A w \in Points : ~Rejected(D, Op("verts", {w})) =>
    After(After(D, Op("verts", {v})), Op("verts", {w})) = After(D, Op("verts", {v, w}))

CommuteSegments(v) ==
  \A s \in Segments :
    (Allowed(D, Op("segs", {s})) /\ ~Rejected(D, Op("segs", {s}))) =>
      LET a == After(After(D, Op("verts", {v})), Op("segs", {s}))
          b == After(After(D, Op("segs", {s})), Op("verts", {v}))
      IN  a.segs = b.segs /\ a.verts = b.verts

Commute == Len(hist) < Depth =>
  /\ \A v \in Points : ~Rejected(D, Op("verts", {v})) => CommuteVertices(v) /\ CommuteSegments(v)
  /\ \A h \in D.holes : HoleConflicts(P, D, h) # {}

Printed == (Dump /\ Len(hist) = Depth) => PrintT(ToJson([boundary |-> D.outer, ops |-> hist]))
=============================================================================

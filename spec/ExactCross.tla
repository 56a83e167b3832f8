----------------------------- MODULE ExactCross -----------------------------
(***************************************************************************)
(* The operators TLC replaces by java/Exact.java, java/Measure.java and    *)
(* java/Mesh.java agree with their definitions, for all quadruples of      *)
(* points of a small lattice (shifted and scaled by doubles that don't     *)
(* change the answer, too).  ExactPure, MeasurePure and MeshPure are       *)
(* copies of the modules under names which aren't replaced, made by the    *)
(* harness.                                                                *)
(***************************************************************************)
EXTENDS Measure, TLC, FiniteSets, Mesh

CONSTANTS N,     \* the lattice is 0..N x 0..N
          Fixed  \* the first point isn't, it is in a corner or in the middle
Pure == INSTANCE MeasurePure
PureMesh == INSTANCE MeshPure

VARIABLE q
Grid == (0 .. N) \X (0 .. N)
Ratios == {<<3, 2>>, <<2, 1>>, <<1, 1>>, <<7, 5>>}

\* the points are chosen one after the other
Init == q \in {<<p>> : p \in IF Fixed THEN {<<0, 0>>, <<1, 0>>, <<1, 1>>} ELSE Grid}
Next == Len(q) < 4 /\ \E p \in Grid : q' = Append(q, p)

A == q[1]  B == q[2]  C == q[3]  D == q[4]

\* the same points as recorded coordinates: decimal strings
Str(p) == <<ToString(p[1]) \o ".0", ToString(p[2]) \o "e0">>
Far(p) == <<ToString(p[1] + 4096) \o ".5", ToString(p[2] - 1024)>>

Tols == {7, 9, 12}

Predicates ==
  /\ Orient(A, B, C) = Pure!Orient(A, B, C)
  /\ Orient(A, B, C) # 0 => InCircle(A, B, C, D) = Pure!InCircle(A, B, C, D)
  /\ DotAt(A, B, C) = Pure!DotAt(A, B, C)
  /\ Along(A, B, C, D) = Pure!Along(A, B, C, D)
  /\ CmpX(A, B) = Pure!CmpX(A, B) /\ CmpY(A, B) = Pure!CmpY(A, B)
  /\ OnSeg(A, B, C) = Pure!OnSeg(A, B, C)
  /\ CmpLen(A, B, C, D) = Pure!CmpLen(A, B, C, D)
  /\ (A # B /\ A # C) => Sharp(A, B, C) = Pure!Sharp(A, B, C)
  /\ DotSgn(A, B, C, D) = Pure!DotSgn(A, B, C, D)
  /\ Parallel(A, B, C, D) = Pure!Parallel(A, B, C, D)

Recorded ==
  /\ Orient(Str(A), Far(B), Str(C)) \in {0 - 1, 0, 1}
  /\ \A F \in {1, 2} :
       LET f(p) == IF F = 1 THEN Str(p) ELSE Far(p) IN
       /\ Orient(f(A), f(B), f(C)) = Pure!Orient(A, B, C)
       /\ Orient(A, B, C) # 0 => InCircle(f(A), f(B), f(C), f(D)) = Pure!InCircle(A, B, C, D)
       /\ DotAt(f(A), f(B), f(C)) = Pure!DotAt(A, B, C)
       /\ OnSeg(f(A), f(B), f(C)) = Pure!OnSeg(A, B, C)
       /\ Along(f(A), f(B), f(C), f(D)) = Pure!Along(A, B, C, D)

Tolerant ==
  \A e \in Tols :
    /\ Orient(A, B, C) # 0 => InCircleT(A, B, C, D, e) = Pure!InCircle(A, B, C, D)
    /\ DotAtT(A, B, C, e) = Pure!DotAt(A, B, C)
    /\ A # B => OnSegT(A, B, C, e) = Pure!OnSeg(A, B, C)
    /\ A # B => OnLineT(A, B, C, e) = Pure!OnLineT(A, B, C, e)
    /\ Orient(A, B, C) # 0 => \A r \in Ratios : RatioCmp(A, B, C, r[1], r[2], e) = Pure!RatioCmp(A, B, C, r[1], r[2], e)
    /\ \A r \in Ratios : Orient(A, B, C) = 1 => AreaCmp(A, B, C, r[1], r[2], e) = Pure!AreaCmp(A, B, C, r[1], r[2], e)
    /\ AreaEq(<<<<A, B, C>>>>, <<<<A, B, C>>>>, <<>>, e)
    /\ AreaEq(<<<<A, B, C>>>>, <<<<A, B, D, C>>>>, <<>>, e) = Pure!AreaEq(<<<<A, B, C>>>>, <<<<A, B, D, C>>>>, <<>>, e)
    /\ AreaEq(<<<<A, B, C>>, <<A, C, D>>>>, <<<<A, B, C, D>>>>, <<<<B, C, D>>>>, e)
         = Pure!AreaEq(<<<<A, B, C>>, <<A, C, D>>>>, <<<<A, B, C, D>>>>, <<<<B, C, D>>>>, e)

Measures ==
  /\ LoopSign(<<A, B, C, D>>) = Pure!LoopSign(<<A, B, C, D>>)
  /\ \A r \in 0 - 3 .. 3 :
       /\ DotIs(r, A, B, C, D) = Pure!DotIs(r, A, B, C, D)
       /\ DistIs(r, A, B) = Pure!DistIs(r, A, B)
       /\ AreaIs(r, A, B, C) = Pure!AreaIs(r, A, B, C)
       /\ LoopAreaIs(r, <<A, B, C, D>>) = Pure!LoopAreaIs(r, <<A, B, C, D>>)
  /\ MidIs(A, B, C) = Pure!MidIs(A, B, C)
  /\ CentroidIs(A, B, C, D) = Pure!CentroidIs(A, B, C, D)
  /\ Orient(B, C, D) # 0 => CenterIs(A, B, C, D) = Pure!CenterIs(A, B, C, D)
  /\ (A # B /\ C # B) => \A r \in {0 - 1, 0, 1} : CosIs(r, A, B, C) = Pure!CosIs(r, A, B, C)

Pts4 == <<A, B, C, D>>
Meshes == {{<<1, 2, 3>>, <<0, 2, 1>>, <<0, 3, 2>>, <<0, 1, 3>>}, {<<1, 2, 3>>, <<1, 3, 4>>, <<0, 2, 1>>}, {}}
Adjacency == \A M \in Meshes : AdjOf(M) = PureMesh!AdjOf(M)

Agree == Len(q) = 4 =>
  /\ Predicates
  /\ Recorded
  /\ Tolerant
  /\ Measures
  /\ Adjacency
=============================================================================

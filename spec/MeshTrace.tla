----------------------------- MODULE MeshTrace -----------------------------
(***************************************************************************)
(* Trace validation of the triangulation as a container, and of the        *)
(* procedures that build a mesh and refine it, called one after the other. *)
(* The state is the mesh (T: triangles, A: adjacency), the domain the      *)
(* calls have built so far (D) and whether the premises held so far (on).  *)
(***************************************************************************)
EXTENDS Refine, Measure, TLC, Json, IOUtils

CASES == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, k, T, A, D, on, tags, bad
vars == <<c, k, T, A, D, on, tags, bad>>

P  == CASES[c].pts
Ev == CASES[c].events[k + 1]

Clause(name, holds) == IF holds THEN {} ELSE {name}
Crash(e) == e.res \in {"panic", "timeout"}
Container == {"include", "remove", "initial"}

----------------------------------------------------------------------------
(* the container: any triangles, also inconsistent ones; the adjacency of   *)
(* an edge is that of the triangle included last                           *)

EdgeOf(a) == <<a[1], a[2]>>
Included(t) ==
  IF t \in T THEN <<T, A>>
  ELSE <<T \cup {t}, {a \in A : EdgeOf(a) \notin DEdges(t)} \cup {<<d[1], d[2], t>> : d \in DEdges(t)}>>
Removed(t) ==
  IF t \notin T THEN <<T, A>> ELSE <<T \ {t}, {a \in A : EdgeOf(a) \notin DEdges(t)}>>

Contained(e, S) ==
  Clause(e.op \o ".state", /\ TriSet(e.tris) = S[1] /\ Len(e.tris) = Cardinality(S[1])
                           /\ AdjSet(e.adj) = S[2] /\ Len(e.adj) = Cardinality(S[2]))
  \cup Clause(e.op \o ".vertices", SeqSet(e.vs) = Verts(S[1]) /\ Len(e.vs) = Cardinality(Verts(S[1])))
  \cup Clause(e.op \o ".edges", PairSet(e.es) = AllDE(S[1]) /\ Len(e.es) = Cardinality(AllDE(S[1])))

ContainerStep(e) ==
  CASE e.op = "include" -> LET t == Canon(e.arg) IN Clause("include.result", e.out = (t \notin T)) \cup Contained(e, Included(t))
    [] e.op = "remove"  -> LET t == Canon(e.arg) IN Clause("remove.result", e.out = (t \in T)) \cup Contained(e, Removed(t))
    [] e.op = "initial" -> LET a == e.arg[1]  b == e.arg[2]
                               I == {Tri(a, b, Ghost), Tri(b, a, Ghost)}
                           IN  Contained(e, <<I, AdjPairs(I)>>)

----------------------------------------------------------------------------
(* construction: after each call the mesh is a constrained Delaunay         *)
(* triangulation of the domain so far                                      *)

NoDomain == [outer |-> <<>>, holes |-> {}, segs |-> {}, verts |-> {}]

After(e) ==
  CASE e.op = "initial" -> [NoDomain EXCEPT !.verts = SeqSet(e.arg)]
    [] e.op = "free"  -> [D EXCEPT !.verts = @ \cup SeqSet(e.arg)]
    [] e.op = "bnd"   -> [NoDomain EXCEPT !.outer = e.arg]
    [] e.op = "verts" -> [D EXCEPT !.verts = @ \cup SeqSet(e.arg)]
    [] e.op = "hole"  -> [D EXCEPT !.holes = @ \cup {e.arg}, !.verts = @ \ SeqSet(e.arg)]
    [] e.op = "seg"   -> [D EXCEPT !.segs = @ \cup {<<e.arg[1], e.arg[2]>>}]
    [] OTHER          -> LET V == Verts(Solid(TriSet(e.tris))) IN [Subdivision(P, D, V) EXCEPT !.verts = V]

Colinear(V) == \A u \in V, v \in V, w \in V : Orient(P[u], P[v], P[w]) = 0

\* the hull of V, cut at the vertices on it
HullRing(V) ==
  {<<a, b>> \in V \X V : /\ a # b
                         /\ \A v \in V : Orient(P[a], P[b], P[v]) >= 0
                         /\ ~\E v \in V \ {a, b} : OnSeg(P[a], P[b], P[v])}

MeshBroken(e, N) ==
  LET M == TriSet(e.tris) IN
  Clause(e.op \o ".structure", Consistent(P, e.tris, e.adj))
  \cup Clause(e.op \o ".vertices", Verts(Solid(M)) = DomVerts(N))
  \cup Clause(e.op \o ".delaunay", LocallyDelaunay(P, M, Constraints(N), 0))
  \cup Clause(e.op \o ".tiling", IF N.outer = <<>> THEN Ghosts(M) = {Tri(h[2], h[1], Ghost) : h \in HullRing(N.verts)}
                                 ELSE Bounded(M, N) /\ AreaCovered(P, M, N, 0))
  \cup Clause(e.op \o ".constraints", Conforming(M, N))

\* the reported changes account for the difference of the meshes; what came
\* and went is reported as removed, and refinement prunes it from the included
Reported(e) ==
  LET M == TriSet(e.tris)  inc == TriSet(e.inc)  rem == TriSet(e.rem) IN
  /\ M \ T \subseteq inc /\ T \ M \subseteq rem
  /\ inc \subseteq M \cup rem /\ rem \cap M = {}
  /\ e.op \in {"free", "verts"} => rem \subseteq T \cup inc
  /\ e.op \in {"unencroach", "uns"} => inc \subseteq M

Diff(e) == Clause(e.op \o ".reported", Reported(e))

----------------------------------------------------------------------------
(* refinement *)

Held == Constraints(D)

\* V encroaches s
Encroached(s, V) == \E v \in V \ {s[1], s[2]} : DotAtT(P[s[1]], P[s[2]], P[v], 7) = 0 - 1
OnIt(s, v) == OnSegT(P[s[1]], P[s[2]], P[v], 9)

RECURSIVE Halves(_, _, _, _)
(* F are the subsegments of s by repeated bisection, where exactly those    *)
(* that W encroaches are bisected (at least once if must)                   *)
Halves(s, F, W, must) ==
  IF s \in F THEN ~must /\ ~\E v \in W \ {s[1], s[2]} : DotAt(P[s[1]], P[s[2]], P[v]) = 0 - 1
  ELSE \E m \in {f[1] : f \in F} \cup {f[2] : f \in F} :
         /\ MidIs(P[m], P[s[1]], P[s[2]])
         /\ must \/ Encroached(s, W)
         /\ Halves(<<s[1], m>>, F, W, FALSE) /\ Halves(<<m, s[2]>>, F, W, FALSE)

RECURSIVE Bisected(_, _, _)
(* F are subsegments of s by repeated bisection of encroached segments      *)
Bisected(s, F, V) ==
  s \in F \/ \E m \in {f[1] : f \in F} \cup {f[2] : f \in F} :
               /\ MidIs(P[m], P[s[1]], P[s[2]])
               /\ Encroached(s, {v \in V : ~OnIt(s, v)})
               /\ Bisected(<<s[1], m>>, F, V) /\ Bisected(<<m, s[2]>>, F, V)

Keys(e) == {EdgeOf(x[1]) : x \in SeqSet(e.map)}
Values(e) == {EdgeOf(x[2]) : x \in SeqSet(e.map)}
KeysOf(e, s) == {EdgeOf(x[1]) : x \in {x \in SeqSet(e.map) : EdgeOf(x[2]) = s}}

\* the constraints as the report leaves them are those of the subdivided domain
ReportOk(e, N) ==
  /\ Cardinality(Keys(e)) = Len(e.map)
  /\ Values(e) \subseteq Both(Held)
  /\ Both((Held \ Both(Values(e))) \cup Keys(e)) = Both(Constraints(N))
  /\ \A x \in SeqSet(e.map) : OnIt(EdgeOf(x[2]), x[1][1]) /\ OnIt(EdgeOf(x[2]), x[1][2])

RefinedBroken(e, N) ==
  LET M == TriSet(e.tris) IN
  Clause(e.op \o ".structure", Consistent(P, e.tris, e.adj))
  \cup Clause(e.op \o ".vertices", DomVerts(D) \subseteq Verts(Solid(M)))
  \cup Clause(e.op \o ".constraints", Conforming(M, N))
  \cup Clause(e.op \o ".tiling", Bounded(M, N) /\ AreaCovered(P, M, N, 9))
  \cup Clause(e.op \o ".delaunay", LocallyDelaunay(P, M, Constraints(N), 7))

Unencroach(e, N) ==
  LET M == TriSet(e.tris)  V == Verts(Solid(M)) IN
  RefinedBroken(e, N) \cup Diff(e)
  \cup Clause("unencroach.result", NoSharpAngle(P, D) => Unencroached(P, M, Constraints(N)))
  \cup Clause("unencroach.map", ReportOk(e, N))
  \cup Clause("unencroach.needed", \A s \in Values(e) : Bisected(s, KeysOf(e, s), V))
  \* only midpoints were inserted
  \cup Clause("unencroach.only", V = Verts(Solid(T)) \cup {x[1] : x \in Keys(e)} \cup {x[2] : x \in Keys(e)})

UnencroachSegment(e, N) ==
  RefinedBroken(e, N) \cup Diff(e)
  \cup Clause("uns.edges", Halves(EdgeOf(e.arg[1]), PairSet(e.new), SeqSet(e.arg[2]), TRUE))

SplitIrregular(e, N) ==
  LET M == TriSet(e.tris) IN
  RefinedBroken(e, N)
  \cup Clause("split.encroached", Unencroached(P, M, Constraints(N)))
  \cup Clause("split.quality", GoodQuality(P, M, e.arg[1]) /\ SmallArea(P, M, e.arg[2]))
  \cup Clause("split.map", ReportOk(e, N))

----------------------------------------------------------------------------

\* inputs only, so that a crash is judged by the same premise
Holds(e) ==
  CASE e.op \in Container -> TRUE
    [] e.op = "free"  -> on /\ ~Colinear(D.verts \cup SeqSet(e.arg))
    [] e.op = "bnd"   -> SimpleLoop(P, e.arg)
    [] e.op \in {"verts", "hole", "seg"} -> on /\ ValidDomain(P, After(e))
    [] e.op = "unencroach" -> on
    [] e.op = "uns"   -> on /\ EdgeOf(e.arg[1]) \in Held
    [] e.op = "split" -> on /\ NoSharpAngle(P, D) /\ RatioAllowed(e.arg[1]) /\ Unencroached(P, T, Held)

Broken(e) ==
  IF ~Holds(e) THEN {}
  ELSE IF Crash(e) THEN {e.op \o ".total"}
  ELSE IF e.op \in Container THEN ContainerStep(e)
  ELSE LET N == After(e) IN
       CASE e.op \in {"free", "verts"} -> MeshBroken(e, N) \cup Diff(e)
         [] e.op \in {"bnd", "hole", "seg"} -> MeshBroken(e, N)
         [] e.op = "unencroach" -> Unencroach(e, N)
         [] e.op = "uns" -> UnencroachSegment(e, N)
         [] e.op = "split" -> SplitIrregular(e, N)

Init ==
  /\ c \in DOMAIN CASES /\ k = 0 /\ T = {} /\ A = {} /\ D = NoDomain
  /\ on = TRUE /\ tags = <<>> /\ bad = {}

Next ==
  /\ k < Len(CASES[c].events)
  /\ bad = {}
  /\ bad' = Broken(Ev)
  /\ on' = Holds(Ev)
  /\ tags' = Append(tags, IF Holds(Ev) THEN Ev.op ELSE Ev.op \o ".skipped")
  /\ IF Crash(Ev) THEN UNCHANGED <<T, A, D>>
     ELSE /\ T' = TriSet(Ev.tris)
          /\ A' = AdjSet(Ev.adj)
          /\ D' = IF Ev.op \in {"include", "remove"} THEN D ELSE After(Ev)
  /\ k' = k + 1
  /\ c' = c

Conforms ==
  /\ bad = {} \/ PrintT(<<"BROKEN", CASES[c].id, k, CASES[c].events[k].op, bad>>)
  /\ (k = Len(CASES[c].events) \/ bad # {}) => PrintT(<<"TAGS", CASES[c].id, tags>>)

=============================================================================

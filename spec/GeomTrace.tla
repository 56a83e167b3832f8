----------------------------- MODULE GeomTrace -----------------------------
(***************************************************************************)
(* Trace validation of single calls of the geometric building blocks.      *)
(* Each step of a case is one call, recorded with its arguments (points by *)
(* identifiers) and its outcome; bad holds the clauses the outcome broke,  *)
(* tag names what the call exercised.                                      *)
(***************************************************************************)
EXTENDS Geometry, TLC, Json, IOUtils

CASES == ndJsonDeserialize(IOEnv.CASES)

VARIABLES c, k, tags, bad
vars == <<c, k, tags, bad>>

P  == CASES[c].pts
Ev == CASES[c].events[k + 1]

Clause(name, holds) == IF holds THEN {} ELSE {name}
IsSet(s) == Cardinality(Seq2Set(s)) = Len(s)
SameSeq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]
Opt(holds, x) == IF holds THEN <<x>> ELSE <<>>

----------------------------------------------------------------------------
(* premises: outside of them nothing is claimed *)

Crash(e) == e.res \in {"panic", "timeout"}

NoGhost(a) == \A i \in DOMAIN a : a[i] # Ghost

Meshes(a) == /\ \A i \in DOMAIN a : Cardinality(Seq2Set(a[i])) = 3
             /\ \A i, j \in DOMAIN a : i # j => {<<a[i][1], a[i][2]>>, <<a[i][2], a[i][3]>>, <<a[i][3], a[i][1]>>}
                                             \cap {<<a[j][1], a[j][2]>>, <<a[j][2], a[j][3]>>, <<a[j][3], a[j][1]>>} = {}

Premise(e) ==
  LET a == e.arg IN
  CASE e.op = "orient"    -> PlainOrient(P[a[1]], P[a[2]], P[a[3]])
    [] e.op = "incircle"  -> Orient(P[a[1]], P[a[2]], P[a[3]]) = 1 /\ PlainInCircle(P[a[1]], P[a[2]], P[a[3]], P[a[4]])
    [] e.op = "encircles" -> IF a[3] = Ghost THEN PlainOrient(P[a[1]], P[a[2]], P[a[4]])
                             ELSE Orient(P[a[1]], P[a[2]], P[a[3]]) = 1 /\ PlainInCircle(P[a[1]], P[a[2]], P[a[3]], P[a[4]])
    [] e.op = "encroach"  -> PlainDot(P[a[1]], P[a[2]], P[a[3]])
    [] e.op = "encs"      -> \A i \in DOMAIN a[1], j \in DOMAIN a[2] : PlainDot(P[a[1][i][1]], P[a[1][i][2]], P[a[2][j]])
    [] e.op \in {"isect", "parallel"} -> a[1] # a[2] /\ a[3] # a[4]
    [] e.op = "angle"     -> a[1] # a[2] /\ a[2] # a[3]
    [] e.op = "sorient"   -> LoopSign(PointsOf(P, a)) # 0
    [] e.op = "triangle"  -> a[1] # Ghost /\ a[2] # Ghost /\ a[1] # a[2] /\ (a[3] # Ghost => Orient(P[a[1]], P[a[2]], P[a[3]]) = 1)
    [] e.op = "econtains" -> a[1] # a[2]
    [] e.op = "pcontains" -> Simple(P, a[1])
    [] e.op = "continence" -> Simple(P, a[1]) /\ Simple(P, a[2])
    [] e.op \in {"union", "inter", "minus"} ->
         \A i \in {1, 2} : Simple(P, a[i]) /\ (a[i].o \/ CCW(P, a[i]))
    [] e.op = "ivs"       -> Simple(P, a[1]) /\ Simple(P, a[2])
    [] e.op = "split"     -> LET S == PairSet(a) IN
                             /\ IsSet(a) /\ NoOverlap(P, S)
                             /\ Crash(e) \/ Harmless(P, S, {s[1] : s \in PairSet(e.out)}, {s[1] : s \in S} \cup {s[2] : s \in S})
    [] e.op = "hull"      -> \A i \in DOMAIN a : Orient(P[a[i][1]], P[a[i][2]], P[a[i][3]]) = 1
    [] e.op = "minify"    -> Simple(P, a[1])
    [] e.op = "earrange"  -> NoTwins(P, PairSet(a)) /\ \A s \in PairSet(a) : s[1] # s[2]
    [] e.op = "decompose" -> NoTwins(P, PairSet(a[1])) /\ a[2][1] # a[2][2] /\ \A s \in PairSet(a[1]) : s[1] # s[2]
    [] e.op \in {"mtext", "drawn"} -> Meshes(a)
    [] OTHER -> TRUE

----------------------------------------------------------------------------
(* boxes: pairs of identifiers, lower left and upper right *)

IsMinX(p, V) == (\A v \in V : CmpX(P[p], P[v]) <= 0) /\ \E v \in V : CmpX(P[p], P[v]) = 0
IsMinY(p, V) == (\A v \in V : CmpY(P[p], P[v]) <= 0) /\ \E v \in V : CmpY(P[p], P[v]) = 0
IsMaxX(p, V) == (\A v \in V : CmpX(P[p], P[v]) >= 0) /\ \E v \in V : CmpX(P[p], P[v]) = 0
IsMaxY(p, V) == (\A v \in V : CmpY(P[p], P[v]) >= 0) /\ \E v \in V : CmpY(P[p], P[v]) = 0

IsBox(b, V) == IsMinX(b[1], V) /\ IsMinY(b[1], V) /\ IsMaxX(b[2], V) /\ IsMaxY(b[2], V)

InBoxOf(p, V) ==
  /\ \E v \in V, w \in V : CmpX(P[v], P[p]) <= 0 /\ CmpX(P[w], P[p]) >= 0
  /\ \E v \in V, w \in V : CmpY(P[v], P[p]) <= 0 /\ CmpY(P[w], P[p]) >= 0

BoxesApart(V, W) ==
  \/ \A v \in V, w \in W : CmpX(P[v], P[w]) = 0 - 1
  \/ \A v \in V, w \in W : CmpX(P[v], P[w]) = 1
  \/ \A v \in V, w \in W : CmpY(P[v], P[w]) = 0 - 1
  \/ \A v \in V, w \in W : CmpY(P[v], P[w]) = 1

LeastX(V) == CHOOSE v \in V : \A w \in V : CmpX(P[v], P[w]) <= 0
LeastY(V) == CHOOSE v \in V : \A w \in V : CmpY(P[v], P[w]) <= 0
MostX(V) == CHOOSE v \in V : \A w \in V : CmpX(P[v], P[w]) >= 0
MostY(V) == CHOOSE v \in V : \A w \in V : CmpY(P[v], P[w]) >= 0

\* the box b is the common part of the boxes of V and of W
IsCommonBox(b, V, W) ==
  /\ IsMaxX(b[1], {LeastX(V), LeastX(W)}) /\ IsMaxY(b[1], {LeastY(V), LeastY(W)})
  /\ IsMinX(b[2], {MostX(V), MostX(W)}) /\ IsMinY(b[2], {MostY(V), MostY(W)})

UnionAll(a) == UNION {Seq2Set(a[i]) : i \in DOMAIN a}

----------------------------------------------------------------------------
(* boolean operations *)

Boolean(e) ==
  LET p == e.arg[1]  q == e.arg[2]  op == e.op
      V == Seq2Set(p.v) \cup Seq2Set(q.v)
      U == PairSet(e.out.unused)
      loops == [i \in DOMAIN e.out.loops |-> e.out.loops[i].v]
      X == ({s[1] : s \in U} \cup UNION {Seq2Set(loops[i]) : i \in DOMAIN loops}) \ V
  IN
  IF p.o \/ q.o THEN Clause(op \o ".opened", e.out.loops = <<>>)
  ELSE IF BoxApart(P, p.v, q.v) /\ op # "minus" THEN Clause(op \o ".apart", e.out.loops = <<>>)
  ELSE
  LET a == p.v  b == q.v
      named == CrossingsNamed(P, LoopEdges(a), LoopEdges(b), X)
      W == Operands(P, op, a, b, X)
      S == Result(P, op, a, b, W)
      cut == [i \in DOMAIN loops |-> CutLoop(P, loops[i], V, X)]
      got == UNION {cut[i] : i \in DOMAIN loops}
      closed == \A i \in DOMAIN loops : ~e.out.loops[i].o
      outer == OuterLoops(P, S)
  IN
  \* without a result there are no names for the crossings
  IF op = "union" /\ loops = <<>> THEN
    IF \E s \in LoopEdges(a), t \in LoopEdges(b) : Cross(P[s[1]], P[s[2]], P[t[1]], P[t[2]])
    THEN Clause("union.found", \/ \E v \in Seq2Set(a) : PointIn(P, b, P[v]) = 0
                               \/ \E v \in Seq2Set(b) : PointIn(P, a, P[v]) = 0)
    ELSE Clause("union.found", Unpinched(S) => Cardinality(outer) # 1)
  ELSE IF ~named THEN {op \o ".crossings"}
  ELSE IF ~Unpinched(S) THEN {}
  ELSE
  CASE op = "union" ->
         Clause("union.loop", Len(loops) = 1 /\ closed /\ outer = {cut[1]})
         \cup Clause("union.unused", U = (W.A \cup W.B) \ got)
    [] op = "inter" ->
         Clause("inter.loops", closed /\ {cut[i] : i \in DOMAIN cut} = LoopsOf(S) /\ Len(loops) = Cardinality(LoopsOf(S)))
         \cup Clause("inter.unused", U = (W.A \cup W.B) \ S)
    [] op = "minus" ->
         IF Apart(P, a, b)
         THEN Clause("minus.apart", Len(loops) = 0 \/ (Len(loops) = 1 /\ cut[1] = LoopEdges(a)))
              \cup Clause("minus.unused", U = (W.A \cup W.B) \ got)
         ELSE IF Within(P, a, b)
         THEN Clause("minus.within", loops = <<>>) \cup Clause("minus.unused", U = (W.A \cup W.B) \ got)
         ELSE Clause("minus.loops", closed /\ {cut[i] : i \in DOMAIN cut} = LoopsOf(S) /\ Len(loops) = Cardinality(LoopsOf(S)))
              \cup Clause("minus.unused", U = (W.A \cup W.B) \ S)

----------------------------------------------------------------------------
(* the other calls; most have their outcome determined *)

Map2Set(m) == {<<m[i][1], Seq2Set(m[i][2])>> : i \in DOMAIN m}

Split(e) ==
  LET S == PairSet(e.arg)
      O == PairSet(e.out)
      V == {s[1] : s \in S} \cup {s[2] : s \in S}
      X == {s[1] : s \in O} \ V
  IN  Clause("split.crossings", CrossingsKnown(P, S, X \cup V))
      \cup Clause("split.pieces", O = UNION {Cut(P, s, {v \in V : InteriorOf(P, s, v)}
                                        \cup {x \in X : \E t \in S : IsCrossing(P, s, t, x)}) : s \in S})
      \cup Clause("split.once", Len(e.out) = Cardinality(O))

Common(e) ==
  LET A == PolyEdges(e.arg[1])  B == PolyEdges(e.arg[2])
      On(s, x) == OnSegT(P[s[1]], P[s[2]], P[x], 9)
      M == {<<s, t>> \in A \X B : Meet(P[s[1]], P[s[2]], P[t[1]], P[t[2]])}
  IN  Clause("ivs.all", \A m \in M : \E i \in DOMAIN e.out : On(m[1], e.out[i]) /\ On(m[2], e.out[i]))
      \cup Clause("ivs.only", \A i \in DOMAIN e.out : \E m \in M : On(m[1], e.out[i]) /\ On(m[2], e.out[i]))

IsLoopOf(out, E) ==
  IF IsCycle(E) THEN Len(out) = 1 /\ ~out[1].o /\ Len(out[1].v) = Cardinality(E) /\ LoopEdges(out[1].v) = E
  ELSE out = <<>>

Straight(u, v, w) == Orient(P[u], P[v], P[w]) = 0
Minified(l) ==
  LET n == Len(l.v)
      keep == SelectSeq([i \in 1 .. n |-> i],
                LAMBDA i : IF l.o THEN i = 1 \/ i = n \/ ~Straight(l.v[i - 1], l.v[i], l.v[i + 1])
                           ELSE ~Straight(l.v[((i + n - 2) % n) + 1], l.v[i], l.v[(i % n) + 1]))
  IN  [o |-> l.o, v |-> [i \in DOMAIN keep |-> l.v[keep[i]]]]

Whole(e) ==
  LET l == e.arg[1]  o == e.out  n == Len(l.v)
      p == Pairs(l)
      ring == Pairs([o |-> FALSE, v |-> l.v])
  IN  Clause("polyline.edges", SameSeq(o.pairs, p) /\ SameSeq(o.edges, p) /\ SameSeq(o.round, p))
      \cup Clause("polyline.rings", SameSeq(o.loop, ring) /\ SameSeq(o.coords, ring))
      \cup Clause("polyline.ends", o.head = Opt(l.o, l.v[1]) /\ o.tail = Opt(l.o, l.v[n]))
      \cup Clause("polyline.box", IsBox(o.box, Seq2Set(l.v)))

SameRec(x, y) == x.o = y.o /\ SameSeq(x.v, y.v)
SameOpt(x, holds, y) == IF holds THEN Len(x) = 1 /\ SameRec(x[1], y) ELSE x = <<>>

Make(e) ==
  LET a == e.arg  o == e.out IN
  Clause("make.closed", SameOpt(o[1], Len(a) >= 3, [o |-> FALSE, v |-> a]))
  \cup Clause("make.opened", SameOpt(o[2], Len(a) >= 2, [o |-> TRUE, v |-> a]))
  \cup Clause("make.edge", SameOpt(o[3], Len(a) = 2 /\ NoGhost(a), [o |-> TRUE, v |-> a]))

TriangleData(e) ==
  LET a == e.arg  o == e.out  g == a[3] = Ghost
      p == P[a[1]]  q == P[a[2]]
  IN  Clause("triangle.ghost", o.ghost = g)
      \cup Clause("triangle.area", IF g THEN o.area = <<>> ELSE Len(o.area) = 1 /\ AreaIs(o.area[1], p, q, P[a[3]]))
      \cup Clause("triangle.quality", IF g THEN o.quality = <<>>
                                      ELSE Len(o.quality) = 1 /\ RatioCmp(p, q, P[a[3]], o.quality[1], 1, 7) = 0)
      \cup Clause("triangle.circumcenter", IF g THEN o.ccenter = <<>>
                                           ELSE Len(o.ccenter) = 1 /\ CenterIs(P[o.ccenter[1]], p, q, P[a[3]]))
      \cup Clause("triangle.center", IF g THEN MidIs(P[o.center], p, q) ELSE CentroidIs(P[o.center], p, q, P[a[3]]))
      \cup Clause("triangle.edges", /\ SameSeq(o.inner, << <<a[1], a[2]>>, <<a[2], a[3]>>, <<a[3], a[1]>> >>)
                                    /\ SameSeq(o.outer, << <<a[2], a[1]>>, <<a[3], a[2]>>, <<a[1], a[3]>> >>))
      \cup Clause("triangle.opposites", /\ o.apex = << <<a[3]>>, <<a[1]>>, <<a[2]>> >>
                                        /\ o.noapex = <<>>
                                        /\ o.base = << << <<a[2], a[3]>> >>, << <<a[3], a[1]>> >>, << <<a[1], a[2]>> >> >>)
      \cup Clause("triangle.polyline", SameOpt(o.poly, ~g, [o |-> FALSE, v |-> a]))

----------------------------------------------------------------------------
(* equality *)

Rotations(t) == {t, <<t[2], t[3], t[1]>>, <<t[3], t[1], t[2]>>}
Lawful(op, out, same) ==
  Clause(op \o ".eq", out.eq = same) \cup Clause(op \o ".hash", same => out.hash)

Lex(p, q) == IF CmpX(P[p], P[q]) # 0 THEN CmpX(P[p], P[q]) ELSE CmpY(P[p], P[q])

Ordered(a, o) ==
  /\ Len(o) = Len(a)
  /\ \A i \in 1 .. Len(o) - 1 : Lex(o[i], o[i + 1]) <= 0
  /\ \A x \in Seq2Set(a) \cup Seq2Set(o) :
       Cardinality({i \in DOMAIN a : a[i] = x}) = Cardinality({i \in DOMAIN o : o[i] = x})

----------------------------------------------------------------------------
(* what is printed or drawn; a mesh is a sequence of triangles *)

Canonical(t) == LET m == CHOOSE x \in Seq2Set(t) : \A y \in Seq2Set(t) : x <= y IN
                CHOOSE r \in Rotations(t) : r[1] = m
Solids(a) == SelectSeq(a, LAMBDA t : Ghost \notin Seq2Set(t))
Text(e, shape) == Clause(e.op, e.out.shape = shape /\ SameSeq(e.out.ids, e.arg))

MeshText(e) ==
  LET T == {Canonical(e.arg[i]) : i \in DOMAIN e.arg}  o == e.out IN
  Clause("mtext.form", o.ok)
  \cup Clause("mtext.triangles", Len(o.tris) = Cardinality(T) /\ {Canonical(o.tris[i]) : i \in DOMAIN o.tris} = T)
  \cup Clause("mtext.adjacency", /\ Len(o.adj) = 3 * Cardinality(T)
                                 /\ {<<o.adj[i][1], o.adj[i][2], Canonical(SubSeq(o.adj[i], 3, 5))>> : i \in DOMAIN o.adj}
                                    = UNION {{<<t[1], t[2], t>>, <<t[2], t[3], t>>, <<t[3], t[1], t>>} : t \in T})

DataText(e) ==
  LET o == e.out IN
  Clause("dtext.data", o.kept)
  \cup Clause("dtext.form", o.ok)
  \cup Clause("dtext.coordinates", SameSeq(o.pts, e.arg[1]))
  \cup Clause("dtext.triangles", Len(o.tris) = Len(e.arg[2]) /\ \A i \in DOMAIN o.tris : SameSeq(o.tris[i], e.arg[2][i]))

\* every solid triangle, and every edge of one, once
Drawn(e) ==
  LET T == Solids(e.arg)  o == e.out
      n == Len(o.edges) \div 2  m == Len(o.tris) \div 3
      E == UNION {{{T[i][1], T[i][2]}, {T[i][2], T[i][3]}, {T[i][3], T[i][1]}} : i \in DOMAIN T}
      all == SelectSeq(FoldLeft(LAMBDA x, t : x \o t, <<>>, e.arg), LAMBDA v : v # Ghost)
  IN  Clause("drawn.edges", /\ Len(o.edges) = 2 * Cardinality(E)
                            /\ {{o.edges[2 * i - 1], o.edges[2 * i]} : i \in 1 .. n} = E)
      \cup Clause("drawn.triangles", /\ Len(o.tris) = 3 * Len(T)
                                     /\ {Canonical(SubSeq(o.tris, 3 * i - 2, 3 * i)) : i \in 1 .. m} = {Canonical(T[i]) : i \in DOMAIN T})
      \cup Clause("drawn.vertices", SameSeq(o.pts, all))

----------------------------------------------------------------------------

Outcome(e) ==
  LET a == e.arg  o == e.out  op == e.op IN
  CASE op = "orient"    -> Clause(op, o = Orient(P[a[1]], P[a[2]], P[a[3]]))
    [] op = "incircle"  -> Clause(op, o = InCircle(P[a[1]], P[a[2]], P[a[3]], P[a[4]]))
    [] op = "encircles" -> Clause(op, o = IF a[3] = Ghost THEN Orient(P[a[1]], P[a[2]], P[a[4]])
                                          ELSE InCircle(P[a[1]], P[a[2]], P[a[3]], P[a[4]]))
    [] op = "encroach"  -> LET s == 0 - DotAt(P[a[1]], P[a[2]], P[a[3]]) IN Clause(op, o = <<s, s>>)
    [] op = "parallel"  -> Clause(op, o = Parallel(P[a[1]], P[a[2]], P[a[3]], P[a[4]]))
    [] op = "isect"     -> Clause("isect.found", (Len(o) = 1) = Meet(P[a[1]], P[a[2]], P[a[3]], P[a[4]]))
                           \cup Clause("isect.point", \A i \in DOMAIN o : /\ OnSegT(P[a[1]], P[a[2]], P[o[i]], 9)
                                                                          /\ OnSegT(P[a[3]], P[a[4]], P[o[i]], 9))
    [] op = "mid"       -> Clause(op, IF NoGhost(a) THEN Len(o) = 2 /\ MidIs(P[o[1]], P[a[1]], P[a[2]]) /\ MidIs(P[o[2]], P[a[1]], P[a[2]])
                                      ELSE o = <<Ghost>>)
    [] op = "dot"       -> Clause(op, DotIs(o, P[a[1]], P[a[2]], P[a[3]], P[a[4]]))
    [] op = "dist"      -> Clause(op, DistIs(o[1], P[a[1]], P[a[2]]) /\ DistIs(o[2], P[a[1]], P[a[2]]))
    [] op = "ccenter"   -> Clause(op, IF Orient(P[a[1]], P[a[2]], P[a[3]]) = 0 THEN o = <<>>
                                      ELSE Len(o) = 1 /\ CenterIs(P[o[1]], P[a[1]], P[a[2]], P[a[3]]))
    [] op = "area"      -> Clause(op, AreaIs(o, P[a[1]], P[a[2]], P[a[3]]))
    [] op = "areas"     -> Clause(op, LoopAreaIs(o, PointsOf(P, [i \in DOMAIN a |-> a[Len(a) + 1 - i]])))
    [] op = "sorient"   -> Clause(op, o = LoopSign(PointsOf(P, a)))
    [] op = "angle"     -> Clause("angle.cos", CosIs(o[2], P[a[1]], P[a[2]], P[a[3]]))
                           \cup Clause("angle.turn", o[3] = Orient(P[a[1]], P[a[2]], P[a[3]]))
    [] op = "triangle"  -> TriangleData(e)
    [] op = "econtains" -> Clause(op, o = OnSeg(P[a[1]], P[a[2]], P[a[3]]))
    [] op = "pcontains" -> Clause(op, o = Opt(~a[1].o, PointIn(P, a[1].v, P[a[2]])))
    [] op = "continence" -> Clause(op, o = Continence(P, a[1], a[2]))
    [] op \in {"union", "inter", "minus"} -> Boolean(e)
    [] op = "split"     -> Split(e)
    [] op = "ivs"       -> Common(e)
    [] op = "arrange"   -> Clause(op, IsLoopOf(o, PairSet(a)))
    [] op = "hull"      -> Clause(op, IsLoopOf(o, HullEdges({Canon(a[i]) : i \in DOMAIN a})))
    [] op = "minify"    -> Clause(op, SameRec(o, Minified(a[1])))
    [] op = "earrange"  -> Clause(op, PairSet(o) = StraightRuns(P, PairSet(a)) /\ IsSet(o))
    [] op = "decompose" -> LET C == AlongEdge(P, PairSet(a[1]), a[2]) IN
                           Clause(op, IF Reaches(C, a[2][1], a[2][2])
                                      THEN Len(o) = 1 /\ IsChain(C, o[1], a[2][1], a[2][2])
                                      ELSE o = <<>>)
    [] op = "hashmap"   -> LET E == PairSet(a)
                               M(i, j) == {<<e1[i], {f[j] : f \in {g \in E : g[i] = e1[i]}}>> : e1 \in E}
                           IN  Clause(op, /\ Map2Set(o[1]) = M(1, 2) /\ Len(o[1]) = Cardinality(M(1, 2))
                                          /\ Map2Set(o[2]) = M(2, 1) /\ Len(o[2]) = Cardinality(M(2, 1)))
    [] op = "polyline"  -> Whole(e)
    [] op = "make"      -> Make(e)
    [] op = "edge"      -> Clause(op, o = << <<a[2], a[1]>> >>)
    [] op = "veq"       -> Lawful(op, o, a[1] = a[2])
                           \cup Clause("veq.order", LET w == IF a[1] = Ghost THEN 0 ELSE Lex(a[1], a[2])
                                                    IN  (a[1] = Ghost) = (a[2] = Ghost) => o.cmp = w /\ o.pcmp = w)
    [] op = "eeq"       -> Lawful(op, o, a[1] = a[2])
    [] op = "teq"       -> Lawful(op, o, a[1] \in Rotations(a[2]))
    [] op = "peq"       -> Lawful(op, o, SameRec(a[1], a[2]))
    [] op = "vtext"     -> Text(e, "#")
    [] op = "etext"     -> Text(e, "(# - #)")
    [] op = "ttext"     -> Text(e, "(# - # - #)")
    [] op = "mtext"     -> MeshText(e)
    [] op = "dtext"     -> DataText(e)
    [] op = "drawn"     -> Drawn(e)
    [] op = "sort"      -> Clause(op, Ordered(a, o))
    [] op = "bbox"      -> Clause(op, IF a = <<>> THEN o = <<>> ELSE Len(o) = 1 /\ IsBox(o[1], Seq2Set(a)))
    [] op = "bcontains" -> Clause(op, o = InBoxOf(a[2], Seq2Set(a[1])))
    [] op = "binter"    -> LET V == Seq2Set(a[1])  W == Seq2Set(a[2]) IN
                           Clause(op, IF BoxesApart(V, W) THEN o = <<>> ELSE Len(o) = 1 /\ IsCommonBox(o[1], V, W))
    [] op = "bunion"    -> Clause(op, IsBox(o, UnionAll(a)))
    [] op = "bunions"   -> Clause(op, IF a = <<>> THEN o = <<>> ELSE Len(o) = 1 /\ IsBox(o[1], UnionAll(a)))
    [] op = "encs"      -> LET S == PairSet(a[1])
                               W(s) == {v \in Seq2Set(a[2]) : DotAt(P[s[1]], P[s[2]], P[v]) = 0 - 1}
                           IN  Clause(op, {<<<<x[1][1], x[1][2]>>, Seq2Set(x[2])>> : x \in Seq2Set(o)}
                                          = {<<s, W(s)>> : s \in {s \in S : W(s) # {}}})
    [] op = "beq"       -> LET V == Seq2Set(a[1])  W == Seq2Set(a[2]) IN
                           Clause(op, o = (/\ CmpX(P[LeastX(V)], P[LeastX(W)]) = 0 /\ CmpX(P[MostX(V)], P[MostX(W)]) = 0
                                           /\ CmpY(P[LeastY(V)], P[LeastY(W)]) = 0 /\ CmpY(P[MostY(V)], P[MostY(W)]) = 0))

Broken(e) ==
  IF ~Premise(e) THEN {}
  ELSE IF Crash(e) THEN {e.op \o ".total"}
  ELSE Outcome(e)

Tag(e) == IF Premise(e) THEN e.op ELSE e.op \o ".skipped"

Init == c \in DOMAIN CASES /\ k = 0 /\ tags = <<>> /\ bad = {}

\* the calls don't depend on each other: a case goes on after a broken clause
Next ==
  /\ k < Len(CASES[c].events)
  /\ bad' = Broken(Ev)
  /\ tags' = Append(tags, Tag(Ev))
  /\ k' = k + 1
  /\ c' = c

Conforms ==
  /\ bad = {} \/ PrintT(<<"BROKEN", CASES[c].id, k, CASES[c].events[k].op, bad>>)
  /\ k = Len(CASES[c].events) => PrintT(<<"TAGS", CASES[c].id, tags>>)

=============================================================================

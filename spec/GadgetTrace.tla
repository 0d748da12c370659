----------------------------- MODULE GadgetTrace ----------------------------
(* Judging recorded calls of the smaller systems (Gadgets.tla).            *)
EXTENDS Gadgets, TraceBase

F(v, r) == [ok |-> Same(v, r), v |-> v]
Q(ok, r) == [ok |-> ok, v |-> Norm(r)]
Nv(x) == IsInt(x) /\ ~SgnNeg(x)
IsMag(mag, r) == IsInt(r) /\ ~SgnNeg(r) /\ G(r) = mag
IsL(r, n) == r.t = "l" /\ Len(r.v) = n

-----------------------------------------------------------------------------
(* floating point                                                          *)
Fl(r, v) == [t |-> "F", r |-> r, v |-> v]
(* a number may be written with any exponent and sign when it is zero:     *)
(* only well-formed numbers are built (zero flag iff zero significand)     *)
FloatJ(op, A, P, r) ==
  LET rid == A[1].r R == Rings[rid] a == A[1].v
  IN CASE op = "fadd" -> F(Fl(rid, V(FAdd(R, a, A[2].v))), r)
       [] op = "fsub" -> F(Fl(rid, V(FSub(R, a, A[2].v))), r)
       [] op = "fmul" -> F(Fl(rid, V(FMul(R, a, A[2].v))), r)
       [] op = "fdiv" -> IF FDivDefined(R, A[2].v) THEN F(Fl(rid, V(FDiv(R, a, A[2].v))), r) ELSE F(Exc, r)
       [] op = "feq" -> F(Bv(a = A[2].v), r)
       [] op = "ffix" -> LET x == V(FFix(R, a)) IN F(Lv(<<E(rid, x[1]), Iv(x[2])>>), r)
       [] op = "fpow" -> LET e == A[2].v o == V(FPowU(R, a, e))
                         IN IF e[4] = 0 THEN F(Fl(rid, o), r)
                            ELSE IF FDivDefined(R, o) THEN F(Fl(rid, V(FDiv(R, FOne(R), o))), r)
                            ELSE F(Exc, r)
       [] op = "fparts" -> F(Lv(<<E(rid, a[1]), E(rid, a[2]), Iv(a[3]), Iv(a[4])>>), r)
ElemJ(op, A, r) ==
  LET rid == A[1].r R == Rings[rid]
  IN CASE op = "elt" -> F(Iv(Bit(Num(A[1].v) <= Num(A[2].v))), r)
       [] op = "etwo" -> F(E(rid, XPow(R, Num(A[1].v))), r)
       [] op = "erba" -> F(E(rid, OfNum(R, Num(A[1].v) + Num(A[2].v))), r)

-----------------------------------------------------------------------------
(* structure requests.  A: the structures of all earlier requests, P.keys  *)
(* their canonical requests; a structure is described by                   *)
(*   [id, kind, a (parameters), mod (modulus), pr (behaviour probe)]       *)
(* P.on: position of the structure this one is built over (0: none)        *)
ClassJ(A, P, r) ==
  LET over == IF P.on = 0 THEN 0 ELSE A[P.on].v.id
      x == r.v
      M == [k |-> "gf", p |-> P.p, m |-> P.m, mod |-> x.mod]
      ffgood == /\ Len(x.mod) = P.m + 1
                /\ IF Len(P.mod) > 0 THEN x.mod = P.mod ELSE Primitive([k |-> "zp", p |-> P.p], x.mod)
                /\ x.pr = GfReduce(M, V([i \in 1..(P.m + 1) |-> IF i = P.m + 1 THEN 1 ELSE 0]))
  IN Q(/\ r.t = "c"
       /\ x.kind = P.kind
       \* one structure per key, one key per structure
       \* (whether the default modulus of a field and the same modulus given
       \* explicitly are one structure is left open: P.open[i])
       /\ \A i \in 1..Len(A) : P.open[i] \/ ((P.keys[i] = P.key) <=> (A[i].v.id = x.id))
       \* and it is the structure that was asked for
       /\ CASE P.kind = "zp" -> x.a = <<P.p>> /\ x.pr = <<P.p - 1>>
            [] P.kind = "ff" -> x.a = <<P.p, P.m>> /\ ffgood
            [] P.kind = "q" -> x.a = <<P.p>> /\ x.pr = <<P.p - 1, 1>>
            [] P.kind = "poly" -> x.a = <<over>>
            [] P.kind = "multi" -> x.a = <<over, P.n>>
            [] P.kind = "fp" -> x.a = <<over>>, r)

-----------------------------------------------------------------------------
(* commitments: P.f, P.h the one-way function and the predicate            *)
Small(f, bits, mag) ==          \* mag is the image of some number of so many bits
  \E x \in 0..(2 ^ bits - 1) : Image(f, FromNat(x)) = mag
BGenJ(P, r) == Q(Nv(r) /\ IF P.sp <= 10 THEN Small(P.f, P.sp, G(r)) ELSE BCmp(G(r), P.f.M) < 0, r)
ComJ(P, s, b, r) == Q(SameCom(BitCom(P.f, P.h, G(s), b.v), r), r)
BindJ(P, com, s, s2, r) ==
  LET o == Opens(P.f, s2, com) d == BitOf(P.h, s2, com)
  IN [ok |-> /\ Same(Lv(<<Bv(o), Iv(d)>>), r)
             /\ o => d = BitOf(P.h, s, com), v |-> Norm(r)]
ICommitJ(P, secs, val, r) ==
  LET bits == ValueBits(G(val), P.n)
  IN Q(/\ IsL(r, P.n) /\ Len(secs.v) = P.n
       /\ \A i \in 1..P.n : SameCom(BitCom(P.f, P.h, G(secs.v[i]), bits[i]), r.v[i]), r)

-----------------------------------------------------------------------------
(* primality                                                               *)
DecomposeJ(n, r) ==
  Q(/\ IsL(r, 2) /\ r.v[1].t = "i" /\ r.v[1].v >= 0 /\ Nv(r.v[2])
    /\ Len(G(r.v[2])) > 0 /\ Md(G(r.v[2])[1], 2) = 1
    /\ Trim(BMul(Pow2B(r.v[1].v), G(r.v[2]))) = G(n), r)
(* the ground truth attached to a number is checked, never believed        *)
TruthOk(n, c) ==
  CASE c.how = "small" -> n.t = "i"
    [] c.how = "lucas" -> LucasPrime(G(n), c)
    [] c.how = "product" -> BCmp(c.x, BOne) > 0 /\ BCmp(c.y, BOne) > 0 /\ Trim(BMul(c.x, c.y)) = G(n)
Truth(n, c) == CASE c.how = "small" -> PrimeTD(n.v) [] c.how = "lucas" -> TRUE [] c.how = "product" -> FALSE
PrimeJ(n, P, r) == IF ~Assert(TruthOk(n, P.c), "certificate") THEN F(Exc, r) ELSE F(Bv(Truth(n, P.c)), r)
GoodJ(n, P, r) ==
  IF ~Assert(TruthOk(n, P.c), "certificate") THEN F(Exc, r)
  ELSE F(Bv(Truth(n, P.c) /\ (IF n.t = "i" THEN Md(n.v, 4) ELSE Md(G(n)[1], 4)) = 3), r)
(* a modulus of requested size: the factorisation is attached as a hint,   *)
(* without one the result is rejected                                      *)
ModulusOk(bits, w, mag) ==
  /\ w.p < 2 ^ bits /\ w.q < 2 ^ bits
  /\ GoodPrime(w.p) /\ GoodPrime(w.q)
  /\ Trim(BMul(FromNat(w.p), FromNat(w.q))) = mag
ModulusJ(bits, P, r) == Q(Nv(r) /\ ModulusOk(bits.v, P.w, G(r)), r)
(* many moduli: the two factors are drawn independently, so not every one   *)
(* of k moduli is a square                                                  *)
ModuliJ(bits, k, P, r) ==
  Q(/\ IsL(r, k.v) /\ \A i \in 1..k.v : Nv(r.v[i]) /\ ModulusOk(bits.v, P.w[i], G(r.v[i]))
    /\ bits.v < 4 \/ k.v < 40 \/ \E i \in 1..k.v : P.w[i].p # P.w[i].q, r)
BigModulusJ(bits, r) ==         \* what is visible without factoring
  Q(Nv(r) /\ BCmp(G(r), Pow2B(2 * bits.v)) < 0 /\ Md(G(r)[1], 4) = 1, r)
FindGoodJ(bits, P, r) ==
  Q(Nv(r) /\ IF r.t = "i" THEN GoodPrime(r.v) /\ r.v < 2 ^ Min2(bits.v, 30)
             ELSE Md(G(r)[1], 4) = 3 /\ BCmp(G(r), Pow2B(bits.v)) < 0, r)
BbsJ(bits, xs, P, r) ==
  LET M == Trim(BMul(FromNat(P.w.p), FromNat(P.w.q)))
      f == [k |-> "sq", M |-> M]
  IN Q(/\ ModulusOk(bits.v, P.w, M) /\ IsL(r, Len(xs.v))
       /\ \A i \in 1..Len(xs.v) : IsMag(Image(f, G(xs.v[i])), r.v[i]), r)
WitnessJ(a, n, e, rem, r) == F(Bv(WitnessB(G(a), G(n), e.v, G(rem))), r)

-----------------------------------------------------------------------------
(* graph isomorphism                                                       *)
Table(x) == V([i \in 1..Len(x.v) |-> x.v[i].v])
IntsV(s) == Lv(V([i \in 1..Len(s) |-> Iv(s[i])]))
ZPermL(r, n) == IsL(r, n) /\ (\A i \in 1..n : r.v[i].t = "i") /\ { r.v[i].v : i \in 1..n } = 0..(n - 1)
IsGraph(r) == r.t = "l" /\ \A i \in 1..Len(r.v) : IsL(r.v[i], 2) /\ r.v[i].v[1].t = "i" /\ r.v[i].v[2].t = "i"
SendJ(g1, r) ==
  LET g == GraphOf(g1) n == NumV(g)
  IN Q(IsL(r, 2) /\ ZPermL(r.v[1], n) /\ Same(GraphV(Relabel(g, FunOf(Table(r.v[1])))), r.v[2]), r)
ResponseV(L, iso, c) == IF c = 1 THEN InvMap(FunOf(L)) ELSE Compose(FunOf(iso), InvMap(FunOf(L)))
AcceptV(g1, g2, tab, c, h) == Accepts(IF c = 1 THEN GraphOf(g1) ELSE GraphOf(g2), tab, GraphOf(h))
(* a prover claiming iso: verdict on each challenge                        *)
Honest(g1, g2, iso) == FunOf(iso) \in Perms(Len(iso)) /\ Relabel(GraphOf(g1), FunOf(iso)) = GraphOf(g2)
RunsJ(g1, g2, iso, r) ==
  LET good == Honest(g1, g2, Table(iso))
      got == { r.v[i].v : i \in 1..Len(r.v) }
  IN Q(/\ r.t = "l" /\ \A i \in 1..Len(r.v) : r.v[i].t = "b"
       /\ got = IF good THEN {TRUE} ELSE {TRUE, FALSE}, r)
(* recorded rounds: <<H, choice, response table>>                          *)
RoundOf(x) == <<GraphOf(x.v[1]), x.v[2].v, Table(x.v[3])>>
GoodRound(x, n) == IsL(x, 3) /\ IsGraph(x.v[1]) /\ x.v[2].t = "i" /\ IsL(x.v[3], n) /\ \A i \in 1..n : x.v[3].v[i].t = "i"
SampleOf(r, S) ==
  LET got == V([i \in 1..Len(r.v) |-> RoundOf(r.v[i])])
  IN { got[i] : i \in 1..Len(got) } = S
TranscriptsJ(g1, g2, iso, sim, r) ==
  LET n == NumV(GraphOf(g1))
      S == V(IF sim THEN SimRounds(GraphOf(g1), GraphOf(g2)) ELSE HonestRounds(GraphOf(g1), FunOf(Table(iso))))
  IN Q(/\ r.t = "l" /\ \A i \in 1..Len(r.v) : GoodRound(r.v[i], n)
       /\ SampleOf(r, S)
       \* the simulator's rounds are the honest rounds
       /\ SimRounds(GraphOf(g1), GraphOf(g2)) = HonestRounds(GraphOf(g1), FunOf(Table(iso)))
       /\ \A x \in S : Accepts(IF x[2] = 1 THEN GraphOf(g1) ELSE GraphOf(g2), x[3], x[1]), r)
SimulateJ(g1, g2, r) ==         \* one simulated round of any size
  LET n == NumV(GraphOf(g1)) IN
  Q(/\ GoodRound(r, n) /\ r.v[2].v \in {1, 2} /\ Bijective(Table(r.v[3]), 1..n)
    /\ AcceptV(g1, g2, Table(r.v[3]), r.v[2].v, r.v[1]), r)

-----------------------------------------------------------------------------
(* 3-coloring.  Commitments: one list of two bit commitments per vertex;   *)
(* secrets: one list of two secrets per vertex                             *)
Color(P, secs, coms, v) == LET x == ValueOf(P.h, secs.v[v], coms.v[v]) IN IF Len(x) = 0 THEN 0 ELSE x[1]
OpensV(P, secs, coms, v) == OpensAll(P.f, 2, secs.v[v], coms.v[v])
GoodComs(x, n) == IsL(x, n) /\ \A v \in 1..n : IsL(x.v[v], 2) /\ \A b \in 1..2 :
                     IsL(x.v[v].v[b], 2) /\ Nv(x.v[v].v[b].v[1]) /\ x.v[v].v[b].v[2].t = "i" /\ x.v[v].v[b].v[2].v \in {0, 1}
(* result: <<commitments, secrets of every vertex (revealed through edges)>>*)
TCommitJ(P, col, r) ==
  LET n == Len(col.v) c == Table(col)
  IN Q(/\ IsL(r, 2) /\ GoodComs(r.v[1], n) /\ IsL(r.v[2], n)
       /\ \A v \in 1..n : IsL(r.v[2].v[v], 2) /\ OpensV(P, r.v[2], r.v[1], v)
       /\ \E s \in ColorPerms : \A v \in 1..n : Color(P, r.v[2], r.v[1], v) = s[c[v]], r)
Edge(x) == <<x.v[1].v, x.v[2].v>>
(* result: <<edge, verdict>>; the opening shown is that of the edge, from  *)
(* the given table of secrets                                              *)
TVerdict(P, coms, secs, e) ==
  LET u == e[1] w == e[2]
  IN /\ OpensV(P, secs, coms, u) /\ OpensV(P, secs, coms, w)
     /\ Color(P, secs, coms, u) \in 0..2 /\ Color(P, secs, coms, w) \in 0..2
     /\ Color(P, secs, coms, u) # Color(P, secs, coms, w)
TAcceptJ(P, g, coms, secs, r) ==
  LET es == Sorted(GraphOf(g))
  IN Q(/\ IsL(r, 2) /\ IsL(r.v[1], 2)
       /\ \E i \in 1..Len(es) : es[i] = Edge(r.v[1])
       /\ Same(Bv(TVerdict(P, coms, secs, IF P.swap THEN <<Edge(r.v[1])[2], Edge(r.v[1])[1]>> ELSE Edge(r.v[1]))), r.v[2]), r)
RevealJ(g, u, w, r) ==
  LET es == Sorted(GraphOf(g)) e == <<Min2(u.v, w.v), Max2(u.v, w.v)>>
  IN F(Bv(\E i \in 1..Len(es) : es[i] = e), r)
EdgesJ(g, r) ==                 \* many choices of an edge: exactly the edges
  LET es == Sorted(GraphOf(g))
  IN Q(r.t = "l" /\ { Edge(r.v[i]) : i \in 1..Len(r.v) } = { es[i] : i \in 1..Len(es) }, r)
(* many rounds: the pair of colours shown on one edge takes all six values *)
PairsJ(col, r) ==
  Q(r.t = "l" /\ { Edge(r.v[i]) : i \in 1..Len(r.v) } = { x \in (0..2) \X (0..2) : x[1] # x[2] }, r)
Proper(g, col) == \A i \in 1..Len(g) : col[g[i][1]] # col[g[i][2]]
TRunsJ(g, col, r) ==
  LET es == GraphOf(g) c == Table(col)
      got == { r.v[i].v : i \in 1..Len(r.v) }
  IN Q(/\ r.t = "l" /\ \A i \in 1..Len(r.v) : r.v[i].t = "b"
       /\ got = { c[es[i][1]] # c[es[i][2]] : i \in 1..Len(es) }, r)

-----------------------------------------------------------------------------
(* APR.  P.r the field (over Z2), P.t P.k P.R the constants, P.w the width *)
(* P.cd the degree of the AIR's constraints; polynomials over Z2 recorded  *)
(* as coefficient sequences ("p" over ring Z2), over the field as "p"      *)
Z2P(v) == Pl("Z2", v)
IdMap(rid) == Pl(rid, PX(Rings[rid]))
CycMap(rid, zeta) == Pl(rid, CycPoly(Rings[rid], zeta))
NbrsV(rid, w, zeta) ==
  Lv(V([k \in 1..(3 * w) |->
     Lv(<<Iv((k - 1) \div 3), IF Md(k, 3) = 1 THEN IdMap(rid) ELSE CycMap(rid, IF Md(k, 3) = 2 THEN zeta ELSE <<>>)>>)]))
Basis(n) == V([i \in 1..n |-> Z2P(GPows(n)[i])])
SpaceV(basis, shift) == Lv(<<Lv(basis), Z2P(shift)>>)
(* boundary entries for register j: <<position, value>>                    *)
BFor(rid, Bs, j) == SelectSeq(V([i \in 1..Len(Bs.v) |-> Bs.v[i].v]), LAMBDA b : b[2].v = j)
ZOf(rid, zeta, Bs, j) ==
  LET R == Rings[rid] bs == BFor(rid, Bs, j)
  IN PRoots(R, V([i \in 1..Len(bs) |-> Point(R, zeta, bs[i][1].v)]))
ZsJ(P, zeta, Bs, r) ==
  F(Lv(V([j \in 1..P.w |-> Pl(P.r, ZOf(P.r, zeta.v, Bs, j - 1))])), r)
EpsJ(P, zeta, Bs, r) ==
  LET R == Rings[P.r]
  IN Q(/\ IsL(r, P.w)
       /\ \A j \in 1..P.w :
            LET bs == BFor(P.r, Bs, j - 1) f == r.v[j]
            IN /\ f.t = "p" /\ f.r = P.r
               /\ IsInterp(R, f.v, V([i \in 1..Len(bs) |-> Point(R, zeta.v, bs[i][1].v)]),
                                   V([i \in 1..Len(bs) |-> AsElem(P.r, bs[i][3])])), r)
(* attributes: <<t, d, k, R, Tau, zeta, Nbrs, H, H0, H1, L, Lcmp>>         *)
CDeg(fs) == FoldLeft(LAMBDA acc, f : Max2(acc, MDeg(f.v)), 1, fs.v)      \* degree of Y_j - f_j(X)
AprJ(P, fs, r) ==
  LET zeta == r.v[6].v
      t == P.t
      d == LogFloor(CDeg(fs)) + 1
      n == 1 + P.k + 5 + t + d
  IN Q(/\ IsL(r, 12) /\ r.v[6].t = "p" /\ r.v[6].r = "Z2"
       /\ Len(zeta) = P.w + 1 /\ Primitive(Z2, zeta)
       /\ Same(Iv(t), r.v[1]) /\ Same(Iv(d), r.v[2]) /\ Same(Iv(P.k), r.v[3]) /\ Same(Iv(5), r.v[4])
       /\ Same(Lv(V([i \in 1..P.w |-> Iv(i - 1)])), r.v[5])
       /\ Same(NbrsV(P.r, P.w, zeta), r.v[7])
       /\ Same(SpaceV(Basis(t), <<>>), r.v[8])
       /\ Same(SpaceV(Basis(t - 1), <<>>), r.v[9])
       /\ Same(SpaceV(Basis(t - 1), GPow(t - 1)), r.v[10])
       /\ Same(SpaceV(Append(Basis(n), Z2P(PMul(Z2, GPow(n), <<1, 1>>))), GPow(n)), r.v[11])
       /\ Same(SpaceV(Basis(n), GPow(n)), r.v[12]), r)
(* rates, exactly: <<rho of every register, rho_cmp>>, binary fractions    *)
OddPart(n, d) == LET RECURSIVE red(_, _)          \* n / 2^d in lowest terms
                     red(x, y) == IF y > 0 /\ Md(x, 2) = 0 THEN red(x \div 2, y - 1) ELSE <<x, y>>
                 IN red(n, d)
Frac(n, d) == LET o == OddPart(n, d) IN [t |-> "f", neg |-> FALSE, n |-> FromNat(o[1]), d |-> Trim(Pow2B(o[2]))]
RatesJ(P, fs, Bs, r) ==
  LET d == LogFloor(CDeg(fs)) + 1
      s == 1 + P.k + 5 + P.t + d
  IN F(Lv(<<Lv(V([j \in 1..P.w |-> Frac(2 ^ (P.k + P.t) - Len(BFor(P.r, Bs, j - 1)), s + 1)])),
            Frac(1 + 2 ^ (P.k + P.t + d), s)>>), r)

-----------------------------------------------------------------------------
JudgeGadget(op, A, P, r) ==
  CASE op = "fmk" -> F(Fl(A[1].r, <<A[1].v, A[2].v, A[3].v, A[4].v>>), r)
    [] op \in {"fadd", "fsub", "fmul", "fdiv", "feq", "ffix", "fpow", "fparts"} -> FloatJ(op, A, P, r)
    [] op \in {"elt", "etwo", "erba"} -> ElemJ(op, A, r)
    [] op = "newe" -> F(E(P.r, AsElem(P.r, A[1])), r)
    [] op = "newp" -> F(Pl(P.r, AsPoly(P.r, A[1])), r)
    [] op = "newm" -> F(Mv(P.r, P.n, AsMulti(P.r, P.n, A[1])), r)
    [] op = "list" -> F(Lv(A), r)
    [] op = "pick" -> F(A[1].v[P.i + 1], r)
    [] op = "req" -> ClassJ(A, P, r)
    \* n different structures, requested twice: n identities, each the same again
    [] op = "bulk" -> Q(/\ r.t = "l" /\ Len(r.v) = 2 /\ r.v[1] = A[1]
                        /\ r.v[2].t = "l" /\ Len(r.v[2].v) = A[1].v
                        /\ \A i \in 1..Len(r.v[2].v) : r.v[2].v[i] = Bv(TRUE), r)
    [] op = "bgen" -> BGenJ(P, r)
    [] op = "bcommit" -> ComJ(P, A[1], A[2], r)
    [] op = "bverify" -> F(Bv(Opens(P.f, A[1], A[2])), r)
    [] op = "bdecode" -> F(Iv(BitOf(P.h, A[1], A[2])), r)
    [] op = "bind" -> BindJ(P, A[1], A[2], A[3], r)
    [] op = "igen" -> Q(IsL(r, P.n) /\ \A i \in 1..P.n : Nv(r.v[i]) /\ BCmp(G(r.v[i]), P.f.M) < 0, r)
    [] op = "icommit" -> ICommitJ(P, A[1], A[2], r)
    [] op = "iverify" -> F(Bv(OpensAll(P.f, P.n, A[1], A[2])), r)
    [] op = "idecode" -> Q(IsMag(ValueOf(P.h, A[1], A[2]), r), r)
    [] op = "decompose" -> DecomposeJ(A[1], r)
    [] op = "witness" -> WitnessJ(A[1], A[2], A[3], A[4], r)
    [] op = "prime" -> PrimeJ(A[1], P, r)
    [] op = "good" -> GoodJ(A[1], P, r)
    [] op = "findgood" -> FindGoodJ(A[1], P, r)
    [] op = "modulus" -> ModulusJ(A[1], P, r)
    [] op = "moduli" -> ModuliJ(A[1], A[2], P, r)
    [] op = "bigmodulus" -> BigModulusJ(A[1], r)
    [] op = "bbs" -> BbsJ(A[1], A[2], P, r)
    [] op = "parity" -> F(Iv(ParityOf(G(A[1]))), r)
    [] op = "zcount" -> F(Iv(NumV(GraphOf(A[1]))), r)
    [] op = "zperm" -> Q(ZPermL(r, A[1].v), r)
    [] op = "zperms" -> Q(r.t = "l" /\ (\A i \in 1..Len(r.v) : ZPermL(r.v[i], A[1].v))
                          /\ { FunOf(Table(r.v[i])) : i \in 1..Len(r.v) } = Perms(A[1].v), r)
    [] op = "zpf" -> F(IntsV(FunOf(Table(A[1]))), r)
    [] op = "zinv" -> F(IntsV(InvMap(FunOf(Table(A[1])))), r)
    [] op = "zapply" -> F(GraphV(Relabel(GraphOf(A[1]), Table(A[2]))), r)
    [] op = "zsend" -> SendJ(A[1], r)
    [] op = "zprove" -> F(IntsV(ResponseV(Table(A[4]), Table(A[3]), A[5].v)), r)
    [] op = "zaccepts" -> F(Bv(AcceptV(A[1], A[2], Table(A[3]), A[4].v, A[5])), r)
    [] op = "zmake" -> IF NumV(GraphOf(A[1])) = NumV(GraphOf(A[2])) THEN F(Bv(TRUE), r) ELSE F(Exc, r)
    [] op = "zchoices" -> Q(r.t = "l" /\ { r.v[i].v : i \in 1..Len(r.v) } = {1, 2}, r)
    [] op = "zruns" -> RunsJ(A[1], A[2], A[3], r)
    [] op = "ztrans" -> TranscriptsJ(A[1], A[2], A[3], P.sim, r)
    [] op = "zsim" -> SimulateJ(A[1], A[2], r)
    [] op = "zconv" -> IF Honest(A[1], A[2], Table(A[3])) THEN F(None, r) ELSE F(Exc, r)
    [] op = "tcommit" -> TCommitJ(P, A[2], r)
    [] op = "taccept" -> TAcceptJ(P, A[1], A[2], A[3], r)
    [] op = "treveal" -> RevealJ(A[1], A[2], A[3], r)
    [] op = "tedges" -> EdgesJ(A[1], r)
    [] op = "tpairs" -> PairsJ(A[2], r)
    [] op = "truns" -> TRunsJ(A[1], A[2], r)
    [] op = "apr" -> AprJ(P, A[1], r)
    [] op = "zs" -> ZsJ(P, A[1], A[2], r)
    [] op = "eps" -> EpsJ(P, A[1], A[2], r)
    [] op = "rates" -> RatesJ(P, A[1], A[2], r)
    [] op = "crash" -> [ok |-> FALSE, v |-> None]

=============================================================================

------------------------------ MODULE AlgTrace -----------------------------
(***************************************************************************)
(* Meaning of the public algebraic operations: field and ring arithmetic,  *)
(* Euclid, irreducibility, interpolation, arithmetization, transforms,     *)
(* conversions, affine spaces.                                             *)
(***************************************************************************)
EXTENDS TraceBase

F(v, r) == [ok |-> Same(v, r), v |-> v]       \* the result is determined
Q(ok, r) == [ok |-> ok, v |-> Norm(r)]        \* the result is constrained
IsE(r, id) == r.t = "e" /\ r.r = id
IsP(r, id) == r.t = "p" /\ r.r = id

-----------------------------------------------------------------------------
(* binary operators with coercion to the richer operand                    *)
Richer(x, y) == IF Rank(x) >= Rank(y) THEN x ELSE y

EOp(R, op, a, b) == CASE op = "add" -> RAdd(R, a, b) [] op = "sub" -> RSub(R, a, b)
                      [] op = "mul" -> RMul(R, a, b)
POp(R, op, a, b) == CASE op = "add" -> PAdd(R, a, b) [] op = "sub" -> PSub(R, a, b)
                      [] op = "mul" -> PMul(R, a, b)
MOp(R, op, a, b) == CASE op = "add" -> MAdd(R, a, b) [] op = "sub" -> MSub(R, a, b)
                      [] op = "mul" -> MMul(R, a, b)
BinV(op, x, y) ==
  LET T == Richer(x, y)
      R == Rings[T.r]
  IN CASE T.t = "e" -> E(T.r, EOp(R, op, AsElem(T.r, x), AsElem(T.r, y)))
       [] T.t = "p" -> Pl(T.r, POp(R, op, AsPoly(T.r, x), AsPoly(T.r, y)))
       [] T.t = "m" -> Mv(T.r, T.n, MOp(R, op, AsMulti(T.r, T.n, x), AsMulti(T.r, T.n, y)))
EqV(x, y) ==
  LET T == Richer(x, y)
  IN CASE T.t = "e" -> AsElem(T.r, x) = AsElem(T.r, y)
       [] T.t = "p" -> AsPoly(T.r, x) = AsPoly(T.r, y)
       [] T.t = "m" -> AsMulti(T.r, T.n, x) = AsMulti(T.r, T.n, y)

(* quotients: r * y = x  (field), or polynomial division                   *)
DivJ(x, y, r) ==
  LET T == Richer(x, y)
      R == Rings[T.r]
  IN CASE T.t = "e" ->
            LET a == AsElem(T.r, x) b == AsElem(T.r, y)
            IN IF RIsZero(R, b) THEN F(Exc, r)
               ELSE Q(IsE(r, T.r) /\ RMul(R, r.v, b) = a, r)
       [] T.t = "p" ->
            LET a == AsPoly(T.r, x) b == AsPoly(T.r, y)
            IN IF b = <<>> THEN F(Exc, r) ELSE F(Pl(T.r, PDiv(R, a, b)), r)

DivModJ(x, y, r) ==
  LET T == Richer(x, y)
      R == Rings[T.r]
      a == AsPoly(T.r, x)
      b == AsPoly(T.r, y)
  IN IF b = <<>> THEN F(Exc, r)
     ELSE IF R.k = "big"          \* by the defining identity: no inverses needed
     THEN Q(/\ r.t = "l" /\ Len(r.v) = 2 /\ IsP(r.v[1], T.r) /\ IsP(r.v[2], T.r)
            /\ Len(r.v[2].v) < Len(b)
            /\ PAdd(R, PMul(R, r.v[1].v, b), r.v[2].v) = a, r)
     ELSE LET qr == PDivMod(R, a, b) IN F(Lv(<<Pl(T.r, qr[1]), Pl(T.r, qr[2])>>), r)

PowV(x, n) ==
  LET R == Rings[x.r]
  IN CASE x.t = "e" -> E(x.r, IF n.t = "i" THEN RPow(R, x.v, n.v) ELSE RPowBits(R, x.v, BitsOf(n.v)))
       [] x.t = "p" -> Pl(x.r, PPow(R, x.v, n.v))
       [] x.t = "m" -> Mv(x.r, x.n, MPow(R, x.n, x.v, n.v))

NegV(x) == LET R == Rings[x.r]
           IN CASE x.t = "e" -> E(x.r, RNeg(R, x.v))
                [] x.t = "p" -> Pl(x.r, PNeg(R, x.v))
                [] x.t = "m" -> Mv(x.r, x.n, MNeg(R, x.v))

(* byte encodings: base field elements are 32 bytes big-endian; the        *)
(* encoding of anything else is judged by decoding it                      *)
BytesJ(x, r) ==
  LET R == Rings[x.r]
  IN IF x.t = "e" /\ R.k # "gf" THEN F(Yv(REnc(R, x.v)), r)
     ELSE Q(/\ r.t = "y"
            /\ Md(Len(r.v), 32) = 0
            /\ IF x.t = "e" THEN AsElem(x.r, r) = x.v ELSE AsPoly(x.r, r) = x.v, r)

(* evaluation at a scalar or at a polynomial                               *)
CallV(f, x) ==
  LET R == Rings[f.r]
  IN IF x.t = "p" THEN Pl(f.r, PComp(R, f.v, x.v))
     ELSE E(f.r, PEval(R, f.v, AsElem(f.r, x)))

(* a multivariate polynomial at a list of scalars / polynomials            *)
MCallV(f, xs) ==
  LET R == Rings[f.r]
      ts == { xs.v[i].t : i \in 1..Len(xs.v) }
  IN IF "m" \in ts
     THEN LET k == xs.v[CHOOSE i \in 1..Len(xs.v) : xs.v[i].t = "m"].n
          IN Mv(f.r, k, MEvalM(R, k, f.v, V([i \in 1..Len(xs.v) |-> AsMulti(f.r, k, xs.v[i])])))
     ELSE IF "p" \in ts
     THEN Pl(f.r, MEvalP(R, f.v, V([i \in 1..Len(xs.v) |-> AsPoly(f.r, xs.v[i])])))
     ELSE E(f.r, MEval(R, f.v, Elems(f.r, xs)))

-----------------------------------------------------------------------------
(* Euclid                                                                  *)
NonNeg(x) == IsInt(x) /\ ~SgnNeg(x)
BezoutJ(a, b, r) ==
  Q(/\ r.t = "l" /\ Len(r.v) = 3
    /\ \A i \in 1..3 : IsInt(r.v[i])
    /\ LET d == SI(r.v[3])
       IN /\ d.neg => (SI(a).neg \/ SI(b).neg)     \* a gcd is unique up to its sign
          /\ SAddB(SMulB(SI(a), SI(r.v[1])), SMulB(SI(b), SI(r.v[2]))) = d
          /\ BDividesB(d.mag, SI(a).mag)
          /\ BDividesB(d.mag, SI(b).mag), r)
(* gcd of integers with a Bezout certificate c = <<x, y>> supplied as P    *)
GcdJ(a, b, cx, cy, r) ==
  Q(/\ IsInt(r)
    /\ SI(r).neg => (SI(a).neg \/ SI(b).neg)
    /\ BDividesB(SI(r).mag, SI(a).mag)
    /\ BDividesB(SI(r).mag, SI(b).mag)
    /\ SAddB(SMulB(SI(a), SI(cx)), SMulB(SI(b), SI(cy))).mag = SI(r).mag, r)
GcdPJ(a, b, r) ==
  LET R == Rings[a.r]
  IN Q(/\ IsP(r, a.r)
       /\ PMonic(R, r.v) = PMonic(R, PGcd(R, a.v, b.v)), r)
BezoutPJ(a, b, r) ==
  LET R == Rings[a.r]
      pol(x) == IF x.t = "p" /\ x.r = a.r THEN x.v ELSE PConst(R, RInt(R, x.v))
  IN Q(/\ r.t = "l" /\ Len(r.v) = 3
       /\ \A i \in 1..3 : (IsP(r.v[i], a.r) \/ r.v[i].t = "i")
       /\ LET x == pol(r.v[1]) y == pol(r.v[2]) d == pol(r.v[3])
          IN /\ PAdd(R, PMul(R, a.v, x), PMul(R, b.v, y)) = d
             /\ PMonic(R, d) = PMonic(R, PGcd(R, a.v, b.v)), r)

-----------------------------------------------------------------------------
(* transforms                                                              *)
RECURSIVE PowSeqTo(_, _, _)
PowSeq(R, w, n) == FoldLeft(LAMBDA acc, i : Append(acc, RMul(R, acc[Len(acc)], w)), <<ROne(R)>>, Rng(1, n - 1))
PowSeqTo(R, w, acc) ==       \* 1, w, w^2, ... until the powers return to 1
  LET nx == RMul(R, acc[Len(acc)], w)
  IN IF nx = ROne(R) THEN acc ELSE PowSeqTo(R, w, V(Append(acc, nx)))
Cycle(R, w) == PowSeqTo(R, w, <<ROne(R)>>)

MulPolysV(rid, a, b, w) ==
  LET R == Rings[rid]
      n == Len(Cycle(R, w))
      pr == PMul(R, PStrip(R, Elems(rid, a)), PStrip(R, Elems(rid, b)))
  IN ElemList(rid, V([i \in 1..n |-> PAt(R, pr, i)]))

(* arithmetization: f given by its complete table, points -> value         *)
ArithJ(rid, n, table, r) ==
  LET R == Rings[rid]
      f == MFromPairs(r.v)
  IN Q(/\ r.t = "m" /\ r.r = rid /\ r.n = n
       /\ \A i \in 1..n : MDegIn(f, i) < RSize(R)
       /\ \A j \in 1..Len(table.v) :
            MEval(R, f, Elems(rid, table.v[j].v[1])) = AsElem(rid, table.v[j].v[2]), r)

(* all points of F_q^n as sequences                                        *)
DiracJ(rid, n, at, r) ==
  LET R == Rings[rid]
      f == MFromPairs(r.v)
      c == Elems(rid, at)
  IN Q(/\ r.t = "m" /\ r.r = rid /\ r.n = n
       /\ \A x \in [1..n -> RElems(R)] :
            MEval(R, f, V([i \in 1..n |-> x[i]])) = IF V([i \in 1..n |-> x[i]]) = c THEN ROne(R) ELSE RZero(R), r)

-----------------------------------------------------------------------------
(* conversions                                                             *)
MakeMultiV(rid, w, i, f) == Mv(rid, w, MFromUni(Rings[rid], w, i, f.v))
ProjectV(f, i) == [t |-> "pm", r |-> f.r, n |-> f.n - 1, v |-> MProject(f.v, i)]       \* i zero-based

(* monomials in increasing lexicographic order of exponents                *)
LexLess(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
IterJ(f, r) ==
  Q(/\ r.t = "l" /\ Len(r.v) = Cardinality(DOMAIN f.v)
    /\ \A i \in 1..Len(r.v) :
         /\ r.v[i].t = "l" /\ Len(r.v[i].v) = 2 /\ r.v[i].v[1].t = "l"
         /\ LET e == IntList(r.v[i].v[1])
            IN e \in DOMAIN f.v /\ Same(E(f.r, f.v[e]), r.v[i].v[2])
    /\ \A i \in 1..(Len(r.v) - 1) : LexLess(IntList(r.v[i].v[1]), IntList(r.v[i + 1].v[1])), r)

-----------------------------------------------------------------------------
(* affine spaces over a prime field: basis and shift elements or           *)
(* polynomials; the enumeration is compared as a bag                       *)
Combos(R, n) == [1..n -> RElems(R)]
AddX(x, y) == IF Rank(x) >= Rank(y) THEN BinV("add", x, y) ELSE BinV("add", y, x)
AffElem(rid, basis, shift, c) ==
  FoldLeft(LAMBDA acc, i : AddX(acc, BinV("mul", E(rid, c[i]), basis.v[i])), shift, Rng(1, Len(basis.v)))
(* an element and the constant polynomial are the same member              *)
AsMember(x) == CASE x.t = "p" -> <<x.r, x.v>> [] x.t = "e" -> <<x.r, PConst(Rings[x.r], x.v)>> [] OTHER -> <<"?", <<>>>>
AffJ(rid, basis, shift, r) ==
  LET R == Rings[rid]
      cs == Combos(R, Len(basis.v))
      exp == V([c \in cs |-> AsMember(AffElem(rid, basis, shift, c))])
  IN Q(/\ r.t = "l"
       /\ Len(r.v) = Cardinality(cs)
       /\ LET got == V([i \in 1..Len(r.v) |-> AsMember(r.v[i])])
          IN /\ \A c \in cs : Cardinality({ i \in 1..Len(got) : got[i] = exp[c] }) = Cardinality({ d \in cs : exp[d] = exp[c] })
             /\ \A i \in 1..Len(got) : \E c \in cs : got[i] = exp[c], r)

-----------------------------------------------------------------------------
(* rationals modulo p: class of num/den                                    *)
QOk(x) == x.v[2] # 0
QEq(x, y) == FrEq(x.p, x.v, y.v)
AsQ(p, x) == IF x.t = "q" THEN x ELSE IF x.t = "e" THEN [t |-> "q", p |-> p, v |-> <<x.v, 1>>] ELSE [t |-> "q", p |-> p, v |-> <<Md(x.v, p), 1>>]
QRes(p, fr, r) == Q(r.t = "q" /\ r.p = p /\ QOk(r) /\ FrEq(p, fr, r.v), r)
QPrime(x, y) == IF x.t = "q" THEN x.p ELSE y.p
QBin(op, x0, y0, r) ==
  LET p == QPrime(x0, y0) x == AsQ(p, x0) y == AsQ(p, y0)
  IN CASE op = "add" -> QRes(p, FrAdd(p, x.v, y.v), r)
       [] op = "sub" -> QRes(p, FrSub(p, x.v, y.v), r)
       [] op = "mul" -> QRes(p, FrMul(p, x.v, y.v), r)
       [] op = "div" -> IF Md(y.v[1], p) = 0 THEN F(Exc, r) ELSE QRes(p, FrDiv(p, x.v, y.v), r)
       [] op = "eq" -> F(Bv(QEq(x, y)), r)
       [] op = "ne" -> F(Bv(~QEq(x, y)), r)

-----------------------------------------------------------------------------
JudgeAlg(op, A, P, r) ==
  CASE op \in {"add", "sub", "mul"} -> F(BinV(op, A[1], A[2]), r)
    [] op = "eq" -> F(Bv(EqV(A[1], A[2])), r)
    [] op = "ne" -> F(Bv(~EqV(A[1], A[2])), r)
    [] op = "neg" -> F(NegV(A[1]), r)
    [] op = "div" -> DivJ(A[1], A[2], r)
    [] op = "inv" -> LET R == Rings[A[1].r]
                     IN IF RIsZero(R, A[1].v) THEN F(Exc, r)
                        ELSE Q(IsE(r, A[1].r) /\ RMul(R, A[1].v, r.v) = ROne(R), r)
    [] op = "pow" -> F(PowV(A[1], A[2]), r)
    [] op = "newe" -> F(E(P.r, AsElem(P.r, A[1])), r)
    [] op = "newp" -> F(Pl(P.r, AsPoly(P.r, A[1])), r)
    [] op = "newm" -> F(Mv(P.r, P.n, AsMulti(P.r, P.n, A[1])), r)
    [] op = "int" -> LET R == Rings[A[1].r]
                     IN IF R.k = "zp" THEN F(Iv(A[1].v), r) ELSE Q(IsInt(r) /\ ~SgnNeg(r) /\ Trim(Mag(r)) = Trim(A[1].v), r)
    [] op = "bytes" -> BytesJ(A[1], r)
    [] op = "list" -> F(Lv(A), r)
    [] op = "divmod" -> DivModJ(A[1], A[2], r)
    [] op = "mod" -> LET T == Richer(A[1], A[2])
                     IN IF AsPoly(T.r, A[2]) = <<>> THEN F(Exc, r)
                        ELSE F(Pl(T.r, PMod(Rings[T.r], AsPoly(T.r, A[1]), AsPoly(T.r, A[2]))), r)
    [] op = "powmod" -> LET R == Rings[A[1].r]
                            f == IF A[2].t = "i" THEN PPowMod(R, A[1].v, A[2].v, A[3].v)
                                 ELSE PPowModBits(R, A[1].v, BitsOf(A[2].v), A[3].v)
                        IN IF P.reduced THEN F(Pl(A[1].r, f), r)
                           ELSE Q(IsP(r, A[1].r) /\ PMod(R, r.v, A[3].v) = f, r)
    [] op = "call" -> F(CallV(A[1], A[2]), r)
    [] op = "mcall" -> F(MCallV(A[1], A[2]), r)
    [] op = "deg" -> F(Iv(IF A[1].t = "p" THEN PDeg(A[1].v) ELSE MDeg(A[1].v)), r)
    [] op = "len" -> F(Iv(Len(A[1].v)), r)
    [] op = "iszero" -> F(Bv(A[1].v = <<>>), r)
    [] op = "lc" -> F(E(A[1].r, PLC(A[1].v)), r)
    [] op = "coeffs" -> F(ElemList(A[1].r, A[1].v), r)
    [] op = "miter" -> IterJ(A[1], r)
    [] op = "mget" -> F(E(A[1].r, MAt(Rings[A[1].r], A[1].v, IntList(A[2]))), r)
    [] op = "egcd" -> BezoutJ(A[1], A[2], r)
    [] op = "gcd" -> GcdJ(A[1], A[2], P.x, P.y, r)
    [] op = "gcdp" -> GcdPJ(A[1], A[2], r)
    [] op = "egcdp" -> BezoutPJ(A[1], A[2], r)
    [] op = "irred" -> F(Bv(IrredRabin(Rings[A[1].r], A[1].v)), r)
    [] op = "prim" -> F(Bv(Primitive(Rings[A[1].r], A[1].v)), r)
    [] op = "monic" -> F(Bv(Len(A[1].v) > 0 /\ PLC(A[1].v) = ROne(Rings[A[1].r])), r)
    [] op = "genirred" -> Q(/\ IsP(r, P.r) /\ Len(r.v) = P.n + 1 /\ r.v[P.n + 1] = 1 /\ IrredRabin(Rings[P.r], r.v), r)
    [] op = "genprim" -> Q(/\ IsP(r, P.r) /\ Len(r.v) = P.n + 1 /\ r.v[P.n + 1] = 1 /\ Primitive(Rings[P.r], r.v), r)
    [] op = "fieldof" -> IF IrredRabin(Rings[A[1].r], A[1].v) THEN F(Bv(TRUE), r) ELSE F(Exc, r)
    [] op \in {"interp", "interp4"} ->
         Q(IsP(r, P.r) /\ IsInterp(Rings[P.r], r.v, Elems(P.r, A[1]), Elems(P.r, A[2])), r)
    [] op = "interp2" ->
         LET ys == IF A[2].t = "p" THEN ElemList(P.r, A[2].v) ELSE A[2]
             xs == IF A[1].t = "p" THEN ElemList(P.r, A[1].v) ELSE A[1]
         IN Q(IsP(r, P.r) /\ IsInterp(Rings[P.r], r.v, Elems(P.r, xs), Elems(P.r, ys)), r)
    [] op = "minterp4" ->
         Q(/\ r.t = "l" /\ Len(r.v) = Len(A[1].v)
           /\ \A i \in 1..Len(A[1].v) :
                IsP(r.v[i], P.r) /\ IsInterp(Rings[P.r], r.v[i].v, Elems(P.r, A[1].v[i]), Elems(P.r, A[2].v[i])), r)
    [] op = "zpoly" -> F(Pl(P.r, PRoots(Rings[P.r], Elems(P.r, A[1]))), r)
    [] op = "multiinv" ->
         LET R == Rings[P.r] xs == Elems(P.r, A[1])
         IN Q(/\ r.t = "l" /\ Len(r.v) = Len(xs)
              /\ \A i \in 1..Len(xs) :
                   IF RIsZero(R, xs[i])
                   THEN (IsE(r.v[i], P.r) /\ RIsZero(R, r.v[i].v)) \/ (r.v[i].t = "i" /\ r.v[i].v = 0)
                   ELSE IsE(r.v[i], P.r) /\ RMul(R, r.v[i].v, xs[i]) = ROne(R), r)
    [] op = "arith" -> ArithJ(P.r, P.n, A[1], r)
    [] op = "dirac" -> DiracJ(P.r, P.n, A[1], r)
    [] op = "fft" ->
         LET R == Rings[P.r] ws == Cycle(R, A[1].v)
         IN F(ElemList(P.r, V([i \in 1..Len(ws) |-> PEval(R, A[2].v, ws[i])])), r)
    [] op = "invfft" ->
         LET R == Rings[P.r] ws == Cycle(R, A[1].v) ys == Elems(P.r, A[2])
         IN Q(IsP(r, P.r) /\ IsInterp(R, r.v, ws, ys \o V([i \in 1..(Len(ws) - Len(ys)) |-> RZero(R)])), r)
    [] op = "mulpolys" -> F(MulPolysV(P.r, A[1], A[2], A[3].v), r)
    [] op = "cycle" -> F(ElemList(A[1].r, Cycle(Rings[A[1].r], A[1].v)), r)
    [] op = "makemulti" -> F(MakeMultiV(P.r, P.n, P.i, A[1]), r)
    [] op = "project" -> F(ProjectV(A[1], P.i), r)
    [] op = "xis" -> F(Lv(V([i \in 1..P.n |-> Mv(P.r, P.n, MVar(Rings[P.r], P.n, i))])), r)
    [] op = "affine" -> AffJ(P.r, A[1], A[2], r)
    [] op = "affvan" ->
         LET R == Rings[P.r]
             mem == { AffElem(P.r, A[1], A[2], c).v : c \in Combos(R, Len(A[1].v)) }
         IN Q(/\ IsP(r, P.r) /\ Len(r.v) > 0
              /\ \A x \in RElems(R) : (PEval(R, r.v, x) = RZero(R)) <=> (x \in mem), r)
    [] op = "afflen" -> F(Iv(IPow(Rings[P.r].p, Len(A[1].v))), r)
    [] op = "qnew" -> QRes(P.p, <<Md(P.m, P.p), Md(P.n, P.p)>>, r)
    [] op \in {"qadd", "qsub", "qmul", "qdiv", "qeq", "qne"} ->
         QBin(CASE op = "qadd" -> "add" [] op = "qsub" -> "sub" [] op = "qmul" -> "mul"
                [] op = "qdiv" -> "div" [] op = "qeq" -> "eq" [] op = "qne" -> "ne", A[1], A[2], r)
    [] op = "qneg" -> QRes(A[1].p, <<Md(-A[1].v[1], A[1].p), A[1].v[2]>>, r)
    [] op = "qinv" -> IF A[1].v[1] = 0 THEN F(Exc, r) ELSE QRes(A[1].p, <<A[1].v[2], A[1].v[1]>>, r)
    [] op = "qround" -> Q(r.t = "q" /\ r.p = A[1].p /\ QOk(r) /\ QEq(A[1], r), r)
    [] op = "qpow" -> QRes(A[1].p, <<PowI(A[1].v[1], A[2].v, A[1].p), PowI(A[1].v[2], A[2].v, A[1].p)>>, r)
    [] op = "crash" -> [ok |-> FALSE, v |-> None]
=============================================================================

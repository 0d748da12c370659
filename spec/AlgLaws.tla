------------------------------- MODULE AlgLaws ------------------------------
(***************************************************************************)
(* The algebra of Alg.tla, which judges the implementation, satisfies the  *)
(* laws it is supposed to satisfy: checked by TLC on every element,        *)
(* polynomial, point set or function of small structures.  A state picks   *)
(* one instance; the invariant is the law.                                 *)
(***************************************************************************)
EXTENDS Alg
CONSTANT Mode, Size
VARIABLES x, y

Zp(p) == [k |-> "zp", p |-> p]
Gf(p, mod) == [k |-> "gf", p |-> p, m |-> Len(mod) - 1, mod |-> mod]
GF4 == Gf(2, <<1, 1, 1>>)
GF8 == Gf(2, <<1, 1, 0, 1>>)
GF8b == Gf(2, <<1, 0, 1, 1>>)
GF9 == Gf(3, <<1, 0, 1>>)
GF9b == Gf(3, <<1, 1, 2>>)           \* modulus not monic
GF16 == Gf(2, <<1, 1, 0, 0, 1>>)
GF25 == Gf(5, <<2, 0, 1>>)
Native(p) == [k |-> "big", p |-> FromNat(p)]
Limbs(R, n) == PadTo(FromNat(n), Len(R.p))

(* a field: <<R, a, b, c>>                                                 *)
FieldLaw(R, a, b, c) ==
  /\ RAdd(R, a, b) = RAdd(R, b, a) /\ RMul(R, a, b) = RMul(R, b, a)
  /\ RAdd(R, a, RAdd(R, b, c)) = RAdd(R, RAdd(R, a, b), c)
  /\ RMul(R, a, RMul(R, b, c)) = RMul(R, RMul(R, a, b), c)
  /\ RMul(R, a, RAdd(R, b, c)) = RAdd(R, RMul(R, a, b), RMul(R, a, c))
  /\ RAdd(R, a, RZero(R)) = a /\ RMul(R, a, ROne(R)) = a
  /\ RAdd(R, a, RNeg(R, a)) = RZero(R)
  /\ RSub(R, a, b) = RAdd(R, a, RNeg(R, b))
  /\ a = RZero(R) \/ RMul(R, a, RInv(R, a)) = ROne(R)
  /\ RPow(R, a, 3) = RMul(R, a, RMul(R, a, a)) /\ RPow(R, a, RSize(R)) = a
  /\ RPow(R, RAdd(R, a, b), R.p) = RAdd(R, RPow(R, a, R.p), RPow(R, b, R.p))
  /\ {RAdd(R, a, b), RMul(R, a, b), RNeg(R, a)} \subseteq RElems(R)

(* limb arithmetic against native arithmetic                               *)
LimbLaw(p, a, b) ==
  LET R == Native(p) A == V(Limbs(R, a)) C == V(Limbs(R, b))
  IN /\ RAdd(R, A, C) = Limbs(R, Md(a + b, p))
     /\ RSub(R, A, C) = Limbs(R, Md(a - b, p))
     /\ RMul(R, A, C) = Limbs(R, Md(a * b, p))
     /\ RNeg(R, A) = Limbs(R, Md(-a, p))
     /\ RInt(R, a - b) = Limbs(R, Md(a - b, p))
     /\ BCmp(A, C) = IF a > b THEN 1 ELSE IF a < b THEN -1 ELSE 0
     /\ Trim(BMul(A, C)) = FromNat(a * b) /\ Trim(BAdd(A, C)) = FromNat(a + b)
     /\ a >= b => Trim(BSub(A, C)) = FromNat(a - b)
     /\ RBytes(R, REnc(R, A)) = A
     /\ Trim(BModT(PadTo(Trim(BMul(BMul(A, C), BMul(A, C))), Len(R.p)), R.p))
          = FromNat(Md(Md(a * b, p) * Md(a * b, p), p))

(* polynomials                                                             *)
Polys(R, n) == { PStrip(R, f) : f \in [1..n -> RElems(R)] }
DivLaw(R, a, b) ==
  /\ PAdd(R, a, b) = PAdd(R, b, a) /\ PMul(R, a, b) = PMul(R, b, a)
  /\ PSub(R, PAdd(R, a, b), b) = a
  /\ a # <<>> /\ b # <<>> => PDeg(PMul(R, a, b)) = PDeg(a) + PDeg(b)
  /\ \A c \in RElems(R) : /\ PEval(R, PMul(R, a, b), c) = RMul(R, PEval(R, a, c), PEval(R, b, c))
                          /\ PEval(R, PAdd(R, a, b), c) = RAdd(R, PEval(R, a, c), PEval(R, b, c))
                          /\ PEval(R, PComp(R, a, b), c) = PEval(R, a, PEval(R, b, c))
  /\ b # <<>> => LET qr == PDivMod(R, a, b)
                 IN PAdd(R, PMul(R, qr[1], b), qr[2]) = a /\ Len(qr[2]) < Len(b)
  /\ LET d == PGcd(R, a, b)
     IN IF a = <<>> /\ b = <<>> THEN d = <<>>
        ELSE d # <<>> /\ PDivides(R, d, a) /\ PDivides(R, d, b)
(* nothing of higher degree divides both                                   *)
GcdLaw(R, a, b) ==
  a # <<>> \/ b # <<>> =>
    LET d == PGcd(R, a, b)
    IN \A k \in (PDeg(d) + 1)..Max2(PDeg(a), PDeg(b)) : \A f \in Monics(R, k) : ~(PDivides(R, f, a) /\ PDivides(R, f, b))

InterpLaw(R, xs, ys) ==
  /\ IsInterp(R, PInterp(R, xs, ys), xs, ys)
  /\ \A i \in 1..Len(xs) : PEval(R, PRoots(R, xs), xs[i]) = RZero(R)
  /\ \A c \in RElems(R) : (PEval(R, PRoots(R, xs), c) = RZero(R)) => \E i \in 1..Len(xs) : xs[i] = c
  /\ PDeg(PRoots(R, xs)) = Len(xs)

OrderBy(R, a) ==         \* order of X modulo a by stepping, 0 if none
  LET n == IPow(R.p, Len(a) - 1)
      st == FoldLeft(LAMBDA acc, i : IF acc[2] # 0 THEN acc
                                     ELSE LET t == PMod(R, PMul(R, acc[1], PX(R)), a) IN <<t, IF t = POne(R) THEN i ELSE 0>>,
                     <<PMod(R, POne(R), a), 0>>, Rng(1, n))
  IN st[2]
IrredLaw(R, a) ==
  /\ IrredRabin(R, a) = IrredTD(R, a)
  /\ Primitive(R, a) = (IrredTD(R, a) /\ OrderBy(R, a) = IPow(R.p, Len(a) - 1) - 1)

(* roots of unity                                                          *)
RECURSIVE Powers(_, _, _)
Powers(R, w, acc) == LET nx == RMul(R, acc[Len(acc)], w) IN IF nx = ROne(R) THEN acc ELSE Powers(R, w, V(Append(acc, nx)))
Dom(R, w) == Powers(R, w, <<ROne(R)>>)
Dft(R, w, f) == LET D == Dom(R, w) IN V([i \in 1..Len(D) |-> PEval(R, f, D[i])])
DftLaw(R, w, a, b) ==
  LET D == Dom(R, w) n == Len(D) fa == Dft(R, w, a) fb == Dft(R, w, b)
      inv(ys) == LET g == V(RInv(R, w)) s == Dft(R, g, PStrip(R, ys))
                 IN PStrip(R, V([i \in 1..n |-> RMul(R, s[i], RInv(R, RInt(R, n)))]))
  IN /\ PInterp(R, D, fa) = a
     /\ inv(fa) = a
     /\ PDeg(PMul(R, a, b)) < n => inv(V([i \in 1..n |-> RMul(R, fa[i], fb[i])])) = PMul(R, a, b)

(* multivariate: substitution is a homomorphism; degree-reduced            *)
(* polynomials are determined by their values; conversions                 *)
Exps(n, d) == { V([i \in 1..n |-> f[i]]) : f \in [1..n -> 0..d] }
MPolys(R, n, d) == { MClean(R, f) : f \in [Exps(n, d) -> RElems(R)] }
Pts(R, n) == { V([i \in 1..n |-> f[i]]) : f \in [1..n -> RElems(R)] }
MultiLaw(R, n, a, b) ==
  /\ MAdd(R, a, b) = MAdd(R, b, a) /\ MMul(R, a, b) = MMul(R, b, a) /\ MSub(R, MAdd(R, a, b), b) = a
  /\ MPow(R, n, a, 3) = MMul(R, a, MMul(R, a, a))
  /\ \A pt \in Pts(R, n) :
       /\ MEval(R, MAdd(R, a, b), pt) = RAdd(R, MEval(R, a, pt), MEval(R, b, pt))
       /\ MEval(R, MMul(R, a, b), pt) = RMul(R, MEval(R, a, pt), MEval(R, b, pt))
  /\ \A e \in DOMAIN MMul(R, a, b) : MMul(R, a, b)[e] # RZero(R)
UniqueLaw(R, n, a) == (\A pt \in Pts(R, n) : MEval(R, a, pt) = RZero(R)) => a = MZero
ConvLaw(R, n, a) ==
  \A i \in 0..(n - 1) :
    LET co == MProject(a, i)
    IN /\ co = <<>> \/ co[Len(co)] # MZero
       /\ \A pt \in Pts(R, n) :
            MEval(R, a, pt) = FoldLeft(LAMBDA acc, k : RAdd(R, acc, RMul(R, MEval(R, co[k], DropAt(pt, i + 1)), RPow(R, pt[i + 1], k - 1))),
                                       RZero(R), Rng(1, Len(co)))
FromUniLaw(R, n, f) ==
  \A i \in 0..(n - 1) :
    /\ \A pt \in Pts(R, n) : MEval(R, MFromUni(R, n, i, f), pt) = PEval(R, f, pt[i + 1])
    /\ LET co == MProject(MFromUni(R, n, i, f), i)
       IN Len(co) = Len(f) /\ \A k \in 1..Len(f) : co[k] = MConst(R, n - 1, f[k])

(* affine subspaces over the prime field: shift + span(basis)              *)
RECURSIVE Span(_, _)
Span(R, b) == IF b = <<>> THEN {RZero(R)}
              ELSE { RAdd(R, v, RMul(R, RInt(R, c), Head(b))) : v \in Span(R, Tail(b)), c \in 0..(R.p - 1) }
AffineLaw(R, b, s) ==
  LET S == Span(R, b)
      A == { RAdd(R, s, v) : v \in S }
      Z == PRoots(R, SetToSeq(S))
  IN /\ \A u, v \in S : RAdd(R, u, v) \in S
     /\ \E k \in 0..Len(b) : Cardinality(A) = IPow(R.p, k)
     /\ (Cardinality(A) = IPow(R.p, Len(b))) =
          (\A c \in [1..Len(b) -> 0..(R.p - 1)] :
              FoldLeft(LAMBDA acc, i : RAdd(R, acc, RMul(R, RInt(R, c[i]), b[i])), RZero(R), Rng(1, Len(b))) = RZero(R)
                => \A i \in 1..Len(b) : c[i] = 0)
     \* the vanishing polynomial of a subspace is linearized, and shifting its
     \* argument gives that of the affine space
     /\ \A i \in 1..Len(Z) : Z[i] # RZero(R) => \E k \in 0..R.m : i - 1 = IPow(R.p, k)
     /\ \A v \in RElems(R) : (PEval(R, Z, RSub(R, v, s)) = RZero(R)) <=> (v \in A)

(* fractions modulo p are the field Z/p                                    *)
Fracs(p) == { <<m, n>> : m \in 0..(p - 1), n \in 1..(p - 1) }
Val(p, f) == Md(f[1] * InvI(f[2], p), p)
FracLaw(p, f, g) ==
  /\ FrEq(p, f, g) = (Val(p, f) = Val(p, g))
  /\ Val(p, FrAdd(p, f, g)) = Md(Val(p, f) + Val(p, g), p)
  /\ Val(p, FrSub(p, f, g)) = Md(Val(p, f) - Val(p, g), p)
  /\ Val(p, FrMul(p, f, g)) = Md(Val(p, f) * Val(p, g), p)
  /\ g[1] # 0 => Val(p, FrDiv(p, f, g)) = Md(Val(p, f) * InvI(Val(p, g), p), p)

(* the embeddings integers -> prime field -> extension -> polynomials ->    *)
(* multivariate polynomials respect sums and products                      *)
EmbedLaw(R, a, b) ==       \* integers a, b
  /\ RInt(R, a + b) = RAdd(R, RInt(R, a), RInt(R, b)) /\ RInt(R, a * b) = RMul(R, RInt(R, a), RInt(R, b))
  /\ RInt(R, -a) = RNeg(R, RInt(R, a)) /\ RInt(R, Md(a, R.p)) = RInt(R, a)
  /\ LET c == RInt(R, a) d == RInt(R, b)
     IN /\ PConst(R, RAdd(R, c, d)) = PAdd(R, PConst(R, c), PConst(R, d))
        /\ PConst(R, RMul(R, c, d)) = PMul(R, PConst(R, c), PConst(R, d))
        /\ MConst(R, 2, RAdd(R, c, d)) = MAdd(R, MConst(R, 2, c), MConst(R, 2, d))
        /\ MConst(R, 2, RMul(R, c, d)) = MMul(R, MConst(R, 2, c), MConst(R, 2, d))

(* primes and gcds of integers                                             *)
IntLaw(a, b) ==
  /\ PrimeTD(a) = IsPrimeI(a)
  /\ GcdI(a, b) = CHOOSE d \in 0..Max2(a, b) :
       (a = 0 /\ b = 0 /\ d = 0) \/ (d > 0 /\ Md(a, d) = 0 /\ Md(b, d) = 0 /\ \A e \in (d + 1)..Max2(a, b) : ~(Md(a, e) = 0 /\ Md(b, e) = 0))
  /\ Isqrt(a * b) * Isqrt(a * b) <= a * b /\ (Isqrt(a * b) + 1) * (Isqrt(a * b) + 1) > a * b
  /\ a > 1 => \A q \in PrimeFactors(a) : IsPrimeI(q) /\ Md(a, q) = 0

-----------------------------------------------------------------------------
Fields == IF Size = 0 THEN {Zp(2), Zp(3), Zp(5), Zp(7), GF4, GF8, GF9} ELSE {Zp(2), Zp(3), Zp(5), Zp(7), Zp(13), GF4, GF8, GF8b, GF9, GF9b, GF16, GF25}
Inj(R, n) == { xs \in [1..n -> RElems(R)] : \A i, j \in 1..n : i # j => xs[i] # xs[j] }
DftR == IF Size = 0 THEN <<Zp(5), 2>> ELSE <<GF9, <<1, 1>>>>
First ==
  CASE Mode = "field" -> UNION { { <<R, a>> : a \in RElems(R) } : R \in Fields }
    [] Mode = "limbs" -> { <<p, a>> : p \in {251, 257, 4093, 46337}, a \in 0..1250 }
    [] Mode = "poly" -> { <<Zp(2), f>> : f \in Polys(Zp(2), 5 + Size) } \cup { <<Zp(3), f>> : f \in Polys(Zp(3), 4) }
                        \cup (IF Size = 0 THEN {} ELSE { <<GF4, f>> : f \in Polys(GF4, 4) })
    [] Mode = "gcd" -> { <<Zp(2), f>> : f \in Polys(Zp(2), 5) } \cup { <<Zp(3), f>> : f \in Polys(Zp(3), 3 + Size) }
    [] Mode = "interp" -> { <<Zp(5), xs>> : xs \in Inj(Zp(5), 3) } \cup { <<GF4, xs>> : xs \in Inj(GF4, 3) }
    [] Mode = "irred" -> { <<Zp(2), d>> : d \in 1..(6 + 2 * Size) } \cup { <<Zp(3), d>> : d \in 1..(4 + Size) } \cup { <<Zp(5), d>> : d \in 1..3 }
    [] Mode = "dft" -> { <<DftR[1], f>> : f \in Polys(DftR[1], IF Size = 0 THEN 4 ELSE 2) }
    [] Mode = "multi" -> { <<Zp(2), f>> : f \in MPolys(Zp(2), 2, 1) } \cup { <<Zp(3), f>> : f \in MPolys(Zp(3), 2, 1) }
    [] Mode = "unique" -> { <<Zp(2), 3>>, <<Zp(3), 1>>, <<GF4, 1>> } \cup (IF Size = 0 THEN {} ELSE {<<Zp(3), 2>>})
    [] Mode = "conv" -> { <<Zp(2), 3>>, <<Zp(3), 2>> }
    [] Mode = "affine" -> { <<GF8, v>> : v \in RElems(GF8) } \cup { <<GF9, v>> : v \in RElems(GF9) }
    [] Mode = "frac" -> UNION { { <<p, f>> : f \in Fracs(p) } : p \in (IF Size = 0 THEN {2, 3, 5, 7} ELSE {2, 3, 5, 7, 11, 13, 17}) }
    [] Mode = "embed" -> { <<R, a>> : R \in Fields, a \in (-12 - 8 * Size)..(12 + 8 * Size) }
    [] Mode = "int" -> { <<0, a>> : a \in 0..(60 + 140 * Size) }
Second(f) ==
  LET R == f[1] IN
  CASE Mode = "field" -> RElems(R) \X RElems(R)
    [] Mode = "limbs" -> { Md(j * (R \div (7 + 20 * Size) + 1), R) : j \in 0..(7 + 20 * Size) } \cup {R - 1, R - 2, Md(255, R), Md(256, R)}
    [] Mode = "poly" -> Polys(R, IF R.p = 3 THEN 3 ELSE IF R.k = "gf" THEN 2 ELSE 4)
    [] Mode = "gcd" -> Polys(R, 3 + Size)
    [] Mode = "interp" -> { V([i \in 1..3 |-> g[i]]) : g \in [1..3 -> RElems(R)] }
    [] Mode = "irred" -> { PScale(R, c, g) : g \in Monics(R, f[2]), c \in 1..(R.p - 1) }
    [] Mode = "dft" -> Polys(R, 2)
    [] Mode = "multi" -> MPolys(R, 2, 1)
    [] Mode = "unique" -> MPolys(R, f[2], RSize(R) - 1)
    [] Mode = "conv" -> { <<"m", g>> : g \in MPolys(R, f[2], 1) } \cup (IF R.p = 3 THEN { <<"u", PStrip(R, g)>> : g \in [1..3 -> 0..2] } ELSE {})
    [] Mode = "affine" -> { <<s>> : s \in RElems(R) } \cup { <<s, t>> : s \in RElems(R), t \in RElems(R) }
    [] Mode = "frac" -> Fracs(R)
    [] Mode = "embed" -> (-12)..12
    [] Mode = "int" -> 0..(60 + 140 * Size)

Init == x \in First /\ y = <<"pick">> /\ (Mode = "limbs" => x[2] * (IF x[1] > 40000 THEN 37 ELSE IF x[1] > 4000 THEN 3 ELSE 1) < x[1])
Next == y = <<"pick">> /\ y' \in { <<"ok", s>> : s \in Second(x) } /\ UNCHANGED x
Law ==
  y # <<"pick">> =>
    LET R == x[1] a == x[2] b == y[2] IN
    CASE Mode = "field" -> FieldLaw(R, a, b[1], b[2])
      [] Mode = "limbs" -> LimbLaw(R, a * (IF R > 40000 THEN 37 ELSE IF R > 4000 THEN 3 ELSE 1), b)
      [] Mode = "poly" -> DivLaw(R, a, b)
      [] Mode = "gcd" -> GcdLaw(R, a, b)
      [] Mode = "interp" -> InterpLaw(R, V([i \in 1..3 |-> a[i]]), b)
      [] Mode = "irred" -> IrredLaw(R, b)
      [] Mode = "dft" -> DftLaw(R, DftR[2], a, b)
      [] Mode = "multi" -> MultiLaw(R, 2, a, b)
      [] Mode = "unique" -> UniqueLaw(R, a, b)
      [] Mode = "conv" -> IF b[1] = "u" THEN FromUniLaw(R, 2, b[2]) ELSE ConvLaw(R, a, b[2])
      [] Mode = "affine" -> AffineLaw(R, IF Len(b) = 1 THEN <<a>> ELSE <<a, b[2]>>, b[1])
      [] Mode = "frac" -> FracLaw(R, a, b)
      [] Mode = "embed" -> EmbedLaw(R, a, b)
      [] Mode = "int" -> IntLaw(a, b)
=============================================================================

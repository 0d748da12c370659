-------------------------------- MODULE Alg --------------------------------
(***************************************************************************)
(* The mathematics that computablelabs/starks is built on, written down    *)
(* independently of the Python code: prime fields, extension fields, big   *)
(* prime fields (256 bit, as byte limbs because TLC integers have 32       *)
(* bits), univariate and multivariate polynomial rings.                    *)
(*                                                                         *)
(* A ring is a record:                                                     *)
(*   [k |-> "zp",  p |-> 7]                       elements 0..p-1          *)
(*   [k |-> "gf",  p |-> 2, m |-> 3, mod |-> <<1,1,0,1>>]                  *)
(*                        elements: coefficient sequences of length m      *)
(*   [k |-> "big", p |-> <<limbs>>]                                        *)
(*                        elements: sequences of Len(p) base-256 limbs,    *)
(*                        least significant first                          *)
(* A univariate polynomial is its coefficient sequence, lowest degree      *)
(* first, without trailing zero.  A multivariate polynomial is a function  *)
(* from exponent sequences to non-zero coefficients.                       *)
(* TLC evaluates function constructors lazily, hence the V(...) = TLCEval. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

V(x) == TLCEval(x)
Md(a, b) == a % b

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

-----------------------------------------------------------------------------
(* Native modular arithmetic, p <= 46340 so that products fit.             *)

RECURSIVE PowI(_, _, _)
PowI(b, e, p) ==
  IF e = 0 THEN 1 % p
  ELSE LET h == PowI(b, e \div 2, p)
           s == (h * h) % p
       IN IF e % 2 = 1 THEN (s * b) % p ELSE s

InvI(a, p) == PowI(a, p - 2, p)          \* p prime, a # 0

RECURSIVE IPow(_, _)
IPow(b, e) == IF e = 0 THEN 1 ELSE b * IPow(b, e - 1)

RECURSIVE GcdI(_, _)
GcdI(a, b) == IF b = 0 THEN a ELSE GcdI(b, a % b)

IsPrimeI(n) == n >= 2 /\ \A d \in 2..n : d * d <= n => n % d # 0

(* trial division that stops at the square root (for larger n)             *)
Isqrt(n) == FoldLeft(LAMBDA s, i : LET t == s + 2 ^ (16 - i) IN IF t <= 46340 /\ t * t <= n THEN t ELSE s,
                     0, [i \in 1..16 |-> i])
PrimeTD(n) == IF n < 2 THEN FALSE ELSE IF n < 4 THEN TRUE
              ELSE n % 2 # 0 /\ LET h == TLCEval((Isqrt(n) - 1) \div 2) IN \A k \in 1..h : n % (2 * k + 1) # 0

RECURSIVE PrimeFactorsFrom(_, _)
PrimeFactorsFrom(n, d) ==
  IF n = 1 THEN {}
  ELSE IF d * d > n THEN {n}
  ELSE IF n % d = 0 THEN {d} \cup PrimeFactorsFrom(n \div d, d)
  ELSE PrimeFactorsFrom(n, d + 1)
PrimeFactors(n) == PrimeFactorsFrom(n, 2)

-----------------------------------------------------------------------------
(* Big naturals: base-256 limbs, least significant first.                  *)

B == 256
ZerosN(n) == V([i \in 1..n |-> 0])
Rng(lo, hi) == IF hi < lo THEN <<>> ELSE V([i \in 1..(hi - lo + 1) |-> lo + i - 1])     \* <<lo, ..., hi>>
Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE CarryTail(_)
CarryTail(c) == IF c = 0 THEN <<>> ELSE <<c % B>> \o CarryTail(c \div B)
(* propagate (possibly negative) carries; \div and % are floored in TLA+   *)
CarryF(a) == FoldLeft(LAMBDA acc, d : LET t == d + acc[2] IN <<Append(acc[1], t % B), t \div B>>, <<<<>>, 0>>, a)
Carry(a) == LET r == CarryF(a) IN IF r[2] = 0 THEN r[1] ELSE r[1] \o CarryTail(r[2])

RECURSIVE TopNZ(_, _)
TopNZ(a, i) == IF i = 0 THEN 0 ELSE IF a[i] # 0 THEN i ELSE TopNZ(a, i - 1)
Trim(a) == SubSeq(a, 1, TopNZ(a, Len(a)))
PadTo(a, n) == IF Len(a) >= n THEN a ELSE a \o ZerosN(n - Len(a))

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE LET x == Limb(a, i) y == Limb(b, i)
                         IN IF x > y THEN 1 ELSE IF x < y THEN -1 ELSE CmpFrom(a, b, i - 1)
BCmp(a, b) == CmpFrom(a, b, Max2(Len(a), Len(b)))

BAdd(a, b) == Carry(V([i \in 1..Max2(Len(a), Len(b)) |-> Limb(a, i) + Limb(b, i)]))

RECURSIVE BorrowFrom(_, _, _, _, _)
BorrowFrom(a, b, i, c, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET t == a[i] - Limb(b, i) - c
       IN IF t < 0 THEN BorrowFrom(a, b, i + 1, 1, Append(acc, t + B))
          ELSE BorrowFrom(a, b, i + 1, 0, Append(acc, t))
BSub(a, b) == BorrowFrom(a, b, 1, 0, <<>>)          \* a >= b

DotFrom(a, b, k, lo, hi) == FoldLeft(LAMBDA acc, i : acc + a[i] * b[k - i], 0, Rng(lo, hi))
BMul(a, b) ==
  IF Len(a) = 0 \/ Len(b) = 0 THEN <<>>
  ELSE Carry(V([k \in 1..(Len(a) + Len(b) - 1) |->
         DotFrom(a, b, k + 1, Max2(1, k + 1 - Len(b)), Min2(Len(a), k))]))

(* a - q * b * B^s, assuming the result is >= 0: digit differences first,  *)
(* then one carry pass                                                     *)
SubMul(a, b, q, s) ==
  SubSeq(Carry(V([i \in 1..Len(a) |-> a[i] - (IF i > s /\ i - s <= Len(b) THEN q * b[i - s] ELSE 0)])), 1, Len(a))

(* long division by a trimmed modulus; the digit estimate never exceeds    *)
(* the true digit, so remainders stay non-negative                         *)
RECURSIVE ModDigit(_, _, _)
ModDigit(r, p, s) ==             \* subtract multiples of p*B^s from r
  LET n == Len(p)
      top == Limb(r, n + s + 1) * 65536 + Limb(r, n + s) * B + (IF n + s - 1 >= 1 THEN Limb(r, n + s - 1) ELSE 0)
      ptop == p[n] * B + (IF n >= 2 THEN p[n - 1] ELSE 0)
      q0 == top \div (ptop + 1)
      q == IF q0 > 0 THEN q0
           ELSE IF top < ptop THEN 0
           ELSE IF BCmp(SubSeq(r, s + 1, Len(r)), p) >= 0 THEN 1 ELSE 0
  IN IF q = 0 THEN r ELSE ModDigit(V(SubMul(r, p, q, s)), p, s)
BModT(a, p) ==       \* p trimmed, result has Len(p) limbs
  IF Len(a) < Len(p) THEN PadTo(a, Len(p))
  ELSE LET d == Len(a) - Len(p)
           r == FoldLeft(LAMBDA acc, i : ModDigit(acc, p, d + 1 - i), V(Append(a, 0)), V([i \in 1..(d + 1) |-> i]))
       IN SubSeq(r, 1, Len(p))

RECURSIVE FromNat(_)
FromNat(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o FromNat(n \div B)

-----------------------------------------------------------------------------
(* Ring operations.                                                        *)

(* reduce a coefficient sequence modulo the modulus of R                   *)
GfStep(R, a, i, lcinv) ==         \* clear position i > m
  IF a[i] = 0 THEN a
  ELSE LET q == (a[i] * lcinv) % R.p
           s == i - R.m - 1
       IN V([j \in 1..Len(a) |-> IF j > s /\ j <= i THEN (a[j] - q * R.mod[j - s]) % R.p ELSE a[j]])
GfReduce(R, a) ==
  IF Len(a) <= R.m THEN PadTo(a, R.m)
  ELSE LET lcinv == IF R.mod[R.m + 1] = 1 THEN 1 ELSE InvI(R.mod[R.m + 1], R.p)
           n == Len(a)
       IN SubSeq(FoldLeft(LAMBDA acc, i : GfStep(R, acc, n + 1 - i, lcinv), V(a), Rng(1, n - R.m)), 1, R.m)

DotMod(a, b, k, lo, hi, p) == FoldLeft(LAMBDA acc, i : (acc + a[i] * b[k - i]) % p, 0, Rng(lo, hi))
ConvZ(a, b, p) ==
  IF Len(a) = 0 \/ Len(b) = 0 THEN <<>>
  ELSE V([k \in 1..(Len(a) + Len(b) - 1) |->
         DotMod(a, b, k + 1, Max2(1, k + 1 - Len(b)), Min2(Len(a), k), p)])

RZero(R) == CASE R.k = "zp" -> 0
              [] R.k = "gf" -> ZerosN(R.m)
              [] R.k = "big" -> ZerosN(Len(R.p))

RInt(R, n) ==        \* the image of the integer n (any sign, 32 bit)
  CASE R.k = "zp" -> n % R.p
    [] R.k = "gf" -> V([i \in 1..R.m |-> IF i = 1 THEN n % R.p ELSE 0])
    [] R.k = "big" -> IF n >= 0 THEN BModT(PadTo(FromNat(n), Len(R.p)), R.p)
                      ELSE LET a == BModT(PadTo(FromNat(-n), Len(R.p)), R.p)
                           IN IF BCmp(a, <<>>) = 0 THEN a ELSE BSub(R.p, a)
ROne(R) == RInt(R, 1)

RAdd(R, a, b) ==
  CASE R.k = "zp" -> (a + b) % R.p
    [] R.k = "gf" -> V([i \in 1..R.m |-> (a[i] + b[i]) % R.p])
    [] R.k = "big" -> LET s == BAdd(a, b)
                      IN IF BCmp(s, R.p) >= 0 THEN SubSeq(BSub(s, R.p), 1, Len(R.p)) ELSE SubSeq(PadTo(s, Len(R.p)), 1, Len(R.p))
RNeg(R, a) ==
  CASE R.k = "zp" -> (-a) % R.p
    [] R.k = "gf" -> V([i \in 1..R.m |-> (-a[i]) % R.p])
    [] R.k = "big" -> IF BCmp(a, <<>>) = 0 THEN a ELSE BSub(R.p, a)
RSub(R, a, b) ==
  CASE R.k = "zp" -> (a - b) % R.p
    [] R.k = "gf" -> V([i \in 1..R.m |-> (a[i] - b[i]) % R.p])
    [] R.k = "big" -> RAdd(R, a, RNeg(R, b))
RMul(R, a, b) ==
  CASE R.k = "zp" -> (a * b) % R.p
    [] R.k = "gf" -> GfReduce(R, ConvZ(a, b, R.p))
    [] R.k = "big" -> BModT(BMul(a, b), R.p)

RECURSIVE RPow(_, _, _)
RPow(R, b, e) ==
  IF e = 0 THEN ROne(R)
  ELSE IF e = 1 THEN b
  ELSE LET h == RPow(R, b, e \div 2)
           s == RMul(R, h, h)
       IN IF e % 2 = 1 THEN RMul(R, s, b) ELSE s

(* exponent given as bits, most significant first                          *)
RPowBits(R, b, bits) ==
  FoldLeft(LAMBDA acc, bit : LET q == RMul(R, acc, acc) IN IF bit = 1 THEN RMul(R, q, b) ELSE q, ROne(R), bits)

RIsZero(R, a) == a = RZero(R)
RSize(R) == IF R.k = "zp" THEN R.p ELSE IPow(R.p, R.m)       \* not for big

(* Inverse of a non-zero element.  Only "zp" and "gf"; for big fields the  *)
(* specification checks x * inv = 1 instead.                               *)
RInv(R, a) ==
  CASE R.k = "zp" -> InvI(a, R.p)
    [] R.k = "gf" -> RPow(R, a, IPow(R.p, R.m) - 2)
RDiv(R, a, b) == RMul(R, a, RInv(R, b))

RElems(R) ==
  CASE R.k = "zp" -> 0..(R.p - 1)
    [] R.k = "gf" -> [1..R.m -> 0..(R.p - 1)]

(* a natural number given as base-256 digits, most significant first,      *)
(* reduced modulo a native p                                               *)
BytesMod(bs, p) == FoldLeft(LAMBDA acc, d : (acc * B + d) % p, 0, bs)      \* p < 2^23

RevSeq(s) == V([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])

(* residue in R of the natural number with big-endian bytes bs             *)
RBytes(R, bs) ==
  CASE R.k = "zp" -> BytesMod(bs, R.p)
    [] R.k = "big" -> BModT(PadTo(Trim(RevSeq(bs)), Len(R.p)), R.p)

(* 32-byte big-endian encoding of a base field element                     *)
RECURSIVE NatBytesRev(_, _)
NatBytesRev(n, k) == IF k = 0 THEN <<>> ELSE Append(NatBytesRev(n \div B, k - 1), n % B)
EncZ(n) == NatBytesRev(n, 32)
REnc(R, a) == CASE R.k = "zp" -> EncZ(a)
                [] R.k = "big" -> RevSeq(PadTo(a, 32))

-----------------------------------------------------------------------------
(* Univariate polynomials over R.                                          *)

RECURSIVE TopNZR(_, _, _)
TopNZR(z, a, i) == IF i = 0 THEN 0 ELSE IF a[i] # z THEN i ELSE TopNZR(z, a, i - 1)
PStrip(R, a) == LET n == TopNZR(RZero(R), a, Len(a)) IN IF n = Len(a) THEN a ELSE SubSeq(a, 1, n)
PDeg(a) == Len(a) - 1
PAt(R, a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE RZero(R)

PAdd(R, a, b) == PStrip(R, V([i \in 1..Max2(Len(a), Len(b)) |-> RAdd(R, PAt(R, a, i), PAt(R, b, i))]))
PNeg(R, a) == V([i \in 1..Len(a) |-> RNeg(R, a[i])])
PSub(R, a, b) == PStrip(R, V([i \in 1..Max2(Len(a), Len(b)) |-> RSub(R, PAt(R, a, i), PAt(R, b, i))]))

DotR(R, a, b, k, lo, hi) == FoldLeft(LAMBDA acc, i : RAdd(R, acc, RMul(R, a[i], b[k - i])), RZero(R), Rng(lo, hi))
PMul(R, a, b) ==
  IF Len(a) = 0 \/ Len(b) = 0 THEN <<>>
  ELSE IF R.k = "zp" THEN PStrip(R, ConvZ(a, b, R.p))
  ELSE PStrip(R, V([k \in 1..(Len(a) + Len(b) - 1) |->
         DotR(R, a, b, k + 1, Max2(1, k + 1 - Len(b)), Min2(Len(a), k))]))
PScale(R, c, a) == PStrip(R, V([i \in 1..Len(a) |-> RMul(R, c, a[i])]))
PConst(R, c) == PStrip(R, <<c>>)
POne(R) == PConst(R, ROne(R))
PX(R) == <<RZero(R), ROne(R)>>
PShift(R, a, n) == IF Len(a) = 0 THEN a ELSE V([i \in 1..n |-> RZero(R)]) \o a
PLC(a) == a[Len(a)]

(* one step of long division: eliminate coefficient i of the remainder    *)
PDivStep(R, qr, b, lcinv, i) ==
  LET r == qr[2]
      s == i - Len(b)
      c == RMul(R, r[i], lcinv)
  IN IF r[i] = RZero(R) THEN <<<<RZero(R)>> \o qr[1], r>>
     ELSE <<<<c>> \o qr[1],
            V([j \in 1..Len(r) |-> IF j > s /\ j <= i THEN RSub(R, r[j], RMul(R, c, b[j - s])) ELSE r[j]])>>
PDivModRaw(R, a, b, lcinv) ==
  IF Len(a) < Len(b) THEN <<<<>>, a>>
  ELSE LET n == Len(a)
           qr == FoldLeft(LAMBDA acc, k : PDivStep(R, acc, b, lcinv, n + 1 - k), <<<<>>, V(a)>>, Rng(1, n - Len(b) + 1))
       IN <<PStrip(R, qr[1]), PStrip(R, qr[2])>>
(* b # 0 *)
PDivMod(R, a, b) == PDivModRaw(R, a, b, IF PLC(b) = ROne(R) THEN PLC(b) ELSE RInv(R, PLC(b)))
PMod(R, a, b) == PDivMod(R, a, b)[2]
PDiv(R, a, b) == PDivMod(R, a, b)[1]

RECURSIVE PPow(_, _, _)
PPow(R, a, e) == IF e = 0 THEN POne(R)
  ELSE LET h == PPow(R, a, e \div 2) s == PMul(R, h, h) IN IF e % 2 = 1 THEN PMul(R, s, a) ELSE s
RECURSIVE PPowMod(_, _, _, _)
PPowMod(R, a, e, m) == IF e = 0 THEN PMod(R, POne(R), m)
  ELSE LET h == PPowMod(R, a, e \div 2, m) s == PMod(R, PMul(R, h, h), m)
       IN IF e % 2 = 1 THEN PMod(R, PMul(R, s, a), m) ELSE s

PPowModBits(R, a, bits, m) ==
  FoldLeft(LAMBDA acc, bit : LET s == PMod(R, PMul(R, acc, acc), m) IN IF bit = 1 THEN PMod(R, PMul(R, s, a), m) ELSE s,
           PMod(R, POne(R), m), bits)

PEval(R, a, x) ==
  LET n == Len(a) IN FoldLeft(LAMBDA acc, i : RAdd(R, RMul(R, acc, x), a[n + 1 - i]), RZero(R), Rng(1, n))
PComp(R, a, x) ==            \* composition a(x(X))
  LET n == Len(a) IN FoldLeft(LAMBDA acc, i : PAdd(R, PMul(R, acc, x), PConst(R, a[n + 1 - i])), <<>>, Rng(1, n))

PMonic(R, a) == IF Len(a) = 0 THEN a ELSE PScale(R, RInv(R, PLC(a)), a)
RECURSIVE PGcd(_, _, _)
PGcd(R, a, b) == IF Len(b) = 0 THEN a ELSE PGcd(R, b, PMod(R, a, b))
PDivides(R, d, a) == IF Len(d) = 0 THEN Len(a) = 0 ELSE PMod(R, a, d) = <<>>

(* monic polynomial with the given roots                                   *)
PRoots(R, xs) == FoldLeft(LAMBDA acc, x : PMul(R, acc, <<RNeg(R, x), ROne(R)>>), POne(R), xs)

(* all polynomials with coefficients in zp ring R and exactly n+1          *)
(* coefficients, the top one being 1                                       *)
Monics(R, n) == { f \o <<1>> : f \in [1..n -> 0..(R.p - 1)] }

(* irreducible: positive degree, no monic divisor of degree 1..deg/2.      *)
(* (trial division, only for small p and degree)                           *)
IrredTD(R, a) ==
  /\ Len(a) >= 2
  /\ \A d \in 1..((Len(a) - 1) \div 2) : \A f \in Monics(R, d) : PMod(R, a, f) # <<>>

(* Rabin's criterion: x^(p^n) = x mod a, and gcd(x^(p^(n/q)) - x, a) = 1   *)
(* for every prime q dividing n.                                           *)
RECURSIVE FrobIter(_, _, _, _)
FrobIter(R, t, k, a) == IF k = 0 THEN t ELSE FrobIter(R, PPowMod(R, t, R.p, a), k - 1, a)
IrredRabin(R, a) ==
  LET n == Len(a) - 1
      X == PMod(R, PX(R), a)
  IN /\ n >= 1
     /\ FrobIter(R, X, n, a) = X
     /\ \A q \in PrimeFactors(n) :
          PDeg(PGcd(R, a, PSub(R, FrobIter(R, X, n \div q, a), X))) = 0

(* multiplicative order of x modulo a is p^n - 1                           *)
XGenerates(R, a) ==
  LET n == Len(a) - 1
      N == IPow(R.p, n) - 1
      X == PMod(R, PX(R), a)
      one == PMod(R, POne(R), a)
  IN /\ X # <<>>
     /\ PPowMod(R, X, N, a) = one
     /\ \A q \in PrimeFactors(N) : PPowMod(R, X, N \div q, a) # one
Primitive(R, a) == IrredRabin(R, a) /\ XGenerates(R, a)

(* the Lagrange interpolant through distinct points                        *)
PBasis(R, xs, i) ==     \* product of (X - xs[j]), j # i
  FoldLeft(LAMBDA acc, j : IF j = i THEN acc ELSE PMul(R, acc, <<RNeg(R, xs[j]), ROne(R)>>), POne(R), Rng(1, Len(xs)))
PInterp(R, xs, ys) ==
  FoldLeft(LAMBDA acc, i :
             IF ys[i] = RZero(R) THEN acc
             ELSE LET num == V(PBasis(R, xs, i))
                  IN PAdd(R, acc, PScale(R, RDiv(R, ys[i], PEval(R, num, xs[i])), num)),
           <<>>, Rng(1, Len(xs)))

(* f is THE interpolant of degree < n (any ring, no inverse needed)        *)
IsInterp(R, f, xs, ys) ==
  /\ Len(f) <= Len(xs)
  /\ \A i \in 1..Len(xs) : PEval(R, f, xs[i]) = ys[i]

-----------------------------------------------------------------------------
(* Multivariate polynomials over R in n variables.                         *)

MZero == <<>>           \* the function with empty domain
MFromPairs(ps) == V([e \in { ps[i][1] : i \in 1..Len(ps) } |->
                     ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = e][2]])
MClean(R, f) == V([e \in { x \in DOMAIN f : f[x] # RZero(R) } |-> f[e]])
MAt(R, f, e) == IF e \in DOMAIN f THEN f[e] ELSE RZero(R)
MAdd(R, f, g) == MClean(R, V([e \in DOMAIN f \cup DOMAIN g |-> RAdd(R, MAt(R, f, e), MAt(R, g, e))]))
MNeg(R, f) == V([e \in DOMAIN f |-> RNeg(R, f[e])])
MSub(R, f, g) == MAdd(R, f, MNeg(R, g))
ExpAdd(a, b) == V([i \in 1..Len(a) |-> a[i] + b[i]])
MConst(R, n, c) == IF c = RZero(R) THEN MZero ELSE (ZerosN(n) :> c)
MVar(R, n, i) == (V([j \in 1..n |-> IF j = i THEN 1 ELSE 0]) :> ROne(R))
MTerm(R, f, e, c) ==         \* f * c X^e
  V([x \in { ExpAdd(y, e) : y \in DOMAIN f } |->
      RMul(R, c, f[V([i \in 1..Len(e) |-> x[i] - e[i]])])])
MMul(R, f, g) ==
  LET dg == SetToSeq(DOMAIN g)
  IN FoldLeft(LAMBDA acc, e : MAdd(R, acc, MTerm(R, f, e, g[e])), MZero, dg)
RECURSIVE MPow(_, _, _, _)
MPow(R, n, f, k) == IF k = 0 THEN MConst(R, n, ROne(R))
  ELSE LET h == MPow(R, n, f, k \div 2) s == MMul(R, h, h) IN IF k % 2 = 1 THEN MMul(R, s, f) ELSE s
SumSeq(e) == FoldLeft(LAMBDA a, b : a + b, 0, e)
MDeg(f) == LET S == { SumSeq(e) : e \in DOMAIN f } IN IF S = {} THEN 0 ELSE CHOOSE d \in S : \A x \in S : x <= d
MMono(R, e, pt) == FoldLeft(LAMBDA acc, i : IF e[i] = 0 THEN acc ELSE RMul(R, acc, RPow(R, pt[i], e[i])), ROne(R), Rng(1, Len(e)))
MEval(R, f, pt) == FoldLeft(LAMBDA acc, e : RAdd(R, acc, RMul(R, f[e], MMono(R, e, pt))), RZero(R), SetToSeq(DOMAIN f))
MMonoP(R, e, pt) == FoldLeft(LAMBDA acc, i : IF e[i] = 0 THEN acc ELSE PMul(R, acc, PPow(R, pt[i], e[i])), POne(R), Rng(1, Len(e)))
MEvalP(R, f, pt) ==          \* at univariate polynomials
  FoldLeft(LAMBDA acc, e : PAdd(R, acc, PScale(R, f[e], MMonoP(R, e, pt))), <<>>, SetToSeq(DOMAIN f))
MMonoM(R, n, e, pt) == FoldLeft(LAMBDA acc, i : IF e[i] = 0 THEN acc ELSE MMul(R, acc, MPow(R, n, pt[i], e[i])), MConst(R, n, ROne(R)), Rng(1, Len(e)))
MEvalM(R, n, f, pt) ==       \* at multivariate polynomials in n variables
  FoldLeft(LAMBDA acc, e : MAdd(R, acc, MMul(R, MConst(R, n, f[e]), MMonoM(R, n, e, pt))), MZero, SetToSeq(DOMAIN f))
MDegIn(f, i) == LET S == { e[i] : e \in DOMAIN f } IN IF S = {} THEN 0 ELSE CHOOSE d \in S : \A x \in S : x <= d

(* a univariate polynomial as one in variable i (zero-based) of w, and the  *)
(* polynomial in variable i whose coefficients are the rest                 *)
MFromUni(R, w, i, f) ==
  MClean(R, MFromPairs(V([k \in 1..Len(f) |-> << V([j \in 1..w |-> IF j = i + 1 THEN k - 1 ELSE 0]), f[k] >>])))
DropAt(e, i) == SubSeq(e, 1, i - 1) \o SubSeq(e, i + 1, Len(e))
MProject(f, i) ==
  LET d == MDegIn(f, i + 1)
      co(k) == LET S == { e \in DOMAIN f : e[i + 1] = k }
               IN V([x \in { DropAt(e, i + 1) : e \in S } |-> f[CHOOSE e \in S : DropAt(e, i + 1) = x]])
  IN IF DOMAIN f = {} THEN <<>> ELSE V([k \in 1..(d + 1) |-> co(k - 1)])

-----------------------------------------------------------------------------
(* Fractions modulo p: <<num, den>>, den # 0 mod p.                        *)
FrEq(p, x, y) == Md(x[1] * y[2], p) = Md(y[1] * x[2], p)
FrAdd(p, x, y) == <<Md(Md(x[1] * y[2], p) + Md(y[1] * x[2], p), p), Md(x[2] * y[2], p)>>
FrSub(p, x, y) == <<Md(Md(x[1] * y[2], p) - Md(y[1] * x[2], p), p), Md(x[2] * y[2], p)>>
FrMul(p, x, y) == <<Md(x[1] * y[1], p), Md(x[2] * y[2], p)>>
FrDiv(p, x, y) == <<Md(x[1] * y[2], p), Md(x[2] * y[1], p)>>
=============================================================================

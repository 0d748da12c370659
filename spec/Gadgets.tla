------------------------------- MODULE Gadgets ------------------------------
(***************************************************************************)
(* The smaller systems of the repository, written down independently of    *)
(* the Python code: floating point numbers over binary fields, structure   *)
(* requests, one-way-function commitments, primality and Blum-Blum-Shub,   *)
(* the graph-isomorphism and 3-coloring protocols, the APR reduction.      *)
(***************************************************************************)
EXTENDS Vals

-----------------------------------------------------------------------------
(* Floating point over GF(2^m): <<v, p, z, s>>.                            *)
Num(x) == FoldLeft(LAMBDA acc, i : 2 * acc + x[Len(x) + 1 - i], 0, Rng(1, Len(x)))      \* bits as an integer
RECURSIVE NatBits(_)
NatBits(n) == IF n = 0 THEN <<>> ELSE <<Md(n, 2)>> \o NatBits(n \div 2)
OfNum(R, n) == GfReduce(R, NatBits(n))          \* the integer n as a field element
XPow(R, n) == LET X == GfReduce(R, <<0, 1>>) IN RPow(R, X, n)
DegE(x) == TopNZR(0, x, Len(x)) - 1
FZero(R) == RZero(R)
Bit(b) == IF b THEN 1 ELSE 0
Xor(a, b) == Md(a + b, 2)

FAdd(R, a, b) ==
  IF a[3] = 1 THEN b
  ELSE IF b[3] = 1 THEN a
  ELSE LET amax == Num(a[2]) > Num(b[2]) \/ (a[2] = b[2] /\ Num(a[1]) > Num(b[1]))
           mx == IF amax THEN a ELSE b
           mn == IF amax THEN b ELSE a
           delta == V(RSub(R, mx[2], mn[2]))
           near == Num(delta) <= Num(OfNum(R, R.m))
           v == IF near THEN RAdd(R, RMul(R, mx[1], XPow(R, Num(delta))), mn[1]) ELSE mx[1]
       IN <<v, IF near THEN mn[2] ELSE mx[2], Bit(v = FZero(R)), mx[4]>>
FNeg(a) == <<a[1], a[2], a[3], 1 - a[4]>>
FSub(R, a, b) == FAdd(R, a, FNeg(b))
FMul(R, a, b) ==
  IF a[3] = 1 \/ b[3] = 1 THEN <<FZero(R), FZero(R), 1, Xor(a[4], b[4])>>
  ELSE <<RMul(R, a[1], b[1]),
         RAdd(R, RAdd(R, a[2], b[2]), OfNum(R, Max2(0, DegE(a[1]) + DegE(b[1]) - (R.m - 1)))),
         0, Xor(a[4], b[4])>>
FDivDefined(R, b) == b[3] = 0 /\ b[1] # FZero(R)
FDiv(R, a, b) ==
  IF a[3] = 1 THEN <<FZero(R), FZero(R), 1, Xor(a[4], b[4])>>
  ELSE LET ib == V(RInv(R, b[1]))
       IN <<RMul(R, a[1], ib),
            RAdd(R, RSub(R, a[2], b[2]), OfNum(R, Max2(0, DegE(a[1]) + DegE(ib) - (R.m - 1)))),
            0, Xor(a[4], b[4])>>
(* fixed point: <<value, sign>>                                            *)
FFix(R, a) == IF a[3] = 1 THEN <<FZero(R), 0>> ELSE <<RMul(R, a[1], XPow(R, Num(a[2]))), a[4]>>
FOne(R) == <<ROne(R), FZero(R), 0, 0>>
FTimes(R, a, n) == FoldLeft(LAMBDA acc, i : V(FMul(R, acc, a)), FOne(R), Rng(1, n))
FPowU(R, a, e) == FTimes(R, a, Num(FFix(R, e)[1]))       \* before the sign of the exponent

-----------------------------------------------------------------------------
(* One-way functions over natural numbers (trimmed limbs), predicates.     *)
G(x) == Trim(Mag(x))
Image(f, mag) ==
  CASE f.k = "sq" -> Trim(BModT(PadTo(BMul(mag, mag), Len(f.M)), f.M))
    [] f.k = "aff" -> Trim(BModT(PadTo(BAdd(BMul(f.A, mag), f.C), Len(f.M)), f.M))
ParityOf(mag) == Md(FoldLeft(LAMBDA acc, d : acc + FoldLeft(LAMBDA x, y : x + y, 0, ByteBits(d)), 0, mag), 2)
Hard(h, mag) == IF h = "parity" THEN ParityOf(mag) ELSE IF Len(mag) = 0 THEN 0 ELSE Md(mag[1], 2)
NatArg(x) == IsInt(x) /\ ~SgnNeg(x)

(* a commitment of a bit is <<image, masked bit>>                          *)
BitCom(f, h, s, b) == Lv(<<[t |-> "nat", v |-> Image(f, s)], Iv(Xor(Hard(h, s), b))>>)
SameCom(x, y) == /\ y.t = "l" /\ Len(y.v) = 2
                 /\ NatArg(y.v[1]) /\ G(y.v[1]) = x.v[1].v
                 /\ Same(x.v[2], y.v[2])
Opens(f, s, com) == NatArg(s) /\ Image(f, G(s)) = G(com.v[1])
BitOf(h, s, com) == Xor(Hard(h, G(s)), com.v[2].v)
ValueBits(mag, n) == LET b == BitsOf(mag) k == Len(b)
                     IN V([i \in 1..n |-> IF k - n + i >= 1 THEN b[k - n + i] ELSE 0])
OpensAll(f, n, secs, coms) == /\ Len(secs.v) = n /\ Len(coms.v) = n
                              /\ \A i \in 1..n : Opens(f, secs.v[i], coms.v[i])
FromBits(bits) == FoldLeft(LAMBDA acc, b : Trim(BAdd(BAdd(acc, acc), IF b = 1 THEN <<1>> ELSE <<>>)), <<>>, bits)
ValueOf(h, secs, coms) == FromBits(V([i \in 1..Len(coms.v) |-> BitOf(h, secs.v[i], coms.v[i])]))

-----------------------------------------------------------------------------
(* Primality.                                                              *)
BOne == <<1>>
Pow2B(e) == V([i \in 1..(e \div 8 + 1) |-> IF i = e \div 8 + 1 THEN 2 ^ Md(e, 8) ELSE 0])
PredB(n) == Trim(BSub(n, BOne))
PowModB(a, e, n) ==           \* a^e mod n, n a trimmed limb sequence, result trimmed
  LET R == [k |-> "big", p |-> n]
  IN Trim(RPowBits(R, BModT(PadTo(a, Len(n)), n), BitsOf(e)))
WitnessB(a, n, e, rem) ==
  LET first == V(PowModB(a, rem, n))
      seq == FoldLeft(LAMBDA acc, i : Append(acc, V(PowModB(acc[Len(acc)], <<2>>, n))), <<first>>, Rng(1, e - 1))
  IN /\ first # BOne
     /\ \A i \in 1..e : Trim(seq[i]) # PredB(n)
(* Lucas certificate: generator a, the prime factors q of n - 1 (native,   *)
(* with multiplicity) and the cofactors (n - 1) / q                        *)
LucasPrime(n, c) ==
  /\ \A i \in 1..Len(c.qs) : PrimeTD(c.qs[i]) /\ Trim(BMul(FromNat(c.qs[i]), c.cof[i])) = PredB(n)
  /\ FoldLeft(LAMBDA acc, q : Trim(BMul(acc, FromNat(q))), BOne, c.qs) = PredB(n)
  /\ PowModB(c.a, PredB(n), n) = BOne
  /\ \A i \in 1..Len(c.qs) : PowModB(c.a, c.cof[i], n) # BOne
GoodPrime(n) == Md(n, 4) = 3 /\ PrimeTD(n)

-----------------------------------------------------------------------------
(* Graphs: sequences of edges <<i, j>>, vertices 1..n.                     *)
GraphOf(x) == V([i \in 1..Len(x.v) |-> <<x.v[i].v[1].v, x.v[i].v[2].v>>])
GraphV(g) == Lv(V([i \in 1..Len(g) |-> Lv(<<Iv(g[i][1]), Iv(g[i][2])>>)]))
VertsIn(g) == { g[i][1] : i \in 1..Len(g) } \cup { g[i][2] : i \in 1..Len(g) }
NumV(g) == LET S == VertsIn(g) IN CHOOSE m \in S : \A x \in S : x <= m
Relabel(g, f) == V([i \in 1..Len(g) |-> <<f[g[i][1]], f[g[i][2]]>>])
Perms(n) == { f \in [1..n -> 1..n] : { f[i] : i \in 1..n } = 1..n }
(* the list form used by the code: a zero-based permutation                *)
FunOf(L) == V([i \in 1..Len(L) |-> L[i] + 1])
InvMap(f) == V([i \in 1..Len(f) |-> CHOOSE j \in 1..Len(f) : f[j] = i])
Compose(f, g) == V([i \in 1..Len(g) |-> f[g[i]]])        \* f after g
Bijective(f, S) == Cardinality({ f[x] : x \in S }) = Cardinality(S)
Accepts(g, f, h) == Bijective(f, VertsIn(h)) /\ Relabel(h, f) = g
(* what an honest round can look like: <<H, choice, response>>             *)
HonestRounds(g1, iso) ==
  { <<Relabel(g1, p), c, IF c = 1 THEN InvMap(p) ELSE Compose(iso, InvMap(p))>> : p \in Perms(NumV(g1)), c \in {1, 2} }
SimRounds(g1, g2) ==
  { <<Relabel(IF c = 1 THEN g1 ELSE g2, p), c, InvMap(p)>> : p \in Perms(NumV(g1)), c \in {1, 2} }

Sorted(g) == V([i \in 1..Len(g) |-> <<Min2(g[i][1], g[i][2]), Max2(g[i][1], g[i][2])>>])
ColorPerms == { f \in [0..2 -> 0..2] : { f[i] : i \in 0..2 } = 0..2 }

-----------------------------------------------------------------------------
(* APR: everything over Z2[g]; polynomials over Z2 as bit sequences.       *)
Z2 == [k |-> "zp", p |-> 2]
GPow(i) == V([j \in 1..(i + 1) |-> IF j = i + 1 THEN 1 ELSE 0])
RECURSIVE LogFloor(_)
LogFloor(n) == IF n <= 1 THEN 0 ELSE 1 + LogFloor(n \div 2)
GPows(n) == V([i \in 1..n |-> GPow(i - 1)])
(* time step i of the trace sits at g^i modulo the primitive zeta; the two  *)
(* cyclic neighbours of X are g X and g X + zeta                            *)
GElem(R) == GfReduce(R, <<0, 1>>)
Point(R, zeta, i) == GfReduce(R, PMod(Z2, GPow(i), zeta))
CycPoly(R, zeta) == PStrip(R, <<GfReduce(R, zeta), GElem(R)>>)
Span(basis, shift) ==
  { FoldLeft(LAMBDA acc, i : IF i \in s THEN PAdd(Z2, acc, basis[i]) ELSE acc, shift, Rng(1, Len(basis))) : s \in SUBSET (1..Len(basis)) }
=============================================================================

------------------------------ MODULE GadgetLaws ----------------------------
(***************************************************************************)
(* What the smaller protocols guarantee, checked by TLC on small           *)
(* instances: laws of the floating point numbers, binding of the           *)
(* commitments, the Miller-Rabin bound, primality certificates, soundness  *)
(* and zero knowledge of the graph-isomorphism and 3-coloring rounds.      *)
(***************************************************************************)
EXTENDS Gadgets
CONSTANTS Mode, Size
VARIABLES x, y

GF4 == [k |-> "gf", p |-> 2, m |-> 2, mod |-> <<1, 1, 1>>]
GF8 == [k |-> "gf", p |-> 2, m |-> 3, mod |-> <<1, 1, 0, 1>>]
Seqs(S, n) == { V([i \in 1..n |-> f[i]]) : f \in [1..n -> S] }
Els(R) == Seqs(0..1, R.m)
(* well formed: the zero flag says whether the significand is zero         *)
Floats(R) == { <<v, e, Bit(v = FZero(R)), s>> : v \in Els(R), e \in Els(R), s \in 0..1 }
Val(R, a) == IF a[3] = 1 THEN FZero(R) ELSE a[1]
FloatLaw(R, a, b) ==
  LET ab == FMul(R, a, b) IN
  /\ FNeg(FNeg(a)) = a
  /\ ab = FMul(R, b, a)
  /\ ab[3] = Bit(a[3] = 1 \/ b[3] = 1) /\ ab[4] = Xor(a[4], b[4])
  /\ Val(R, ab) = RMul(R, Val(R, a), Val(R, b))
  /\ a[3] = 0 => FMul(R, a, FOne(R)) = a
  /\ FSub(R, a, a)[3] = 1
  /\ FAdd(R, a, b)[1] = FAdd(R, b, a)[1] /\ FAdd(R, a, b)[3] = FAdd(R, b, a)[3]
  /\ FAdd(R, a, b)[3] = Bit(FAdd(R, a, b)[1] = FZero(R)) \/ a[3] = 1 \/ b[3] = 1
  /\ b[3] = 0 /\ a[3] = 0 => Val(R, FMul(R, FDiv(R, a, b), b)) = Val(R, a)
  /\ FTimes(R, a, 2) = FMul(R, FMul(R, FOne(R), a), a)

-----------------------------------------------------------------------------
(* Squaring modulo a product of two good primes is a permutation of the    *)
(* quadratic residues: among residues coprime to M an image has one        *)
(* opening.  Among all secrets it has several, with both parities - the    *)
(* known weakness of the implementation's commitments (P28-negation).      *)
Sq(M) == [k |-> "sq", M |-> FromNat(M)]
CoprimeQR(M) == { r \in 1..(M - 1) : GcdI(r, M) = 1 /\ \E s \in 1..(M - 1) : Md(s * s, M) = r }
BindQR(M, a, b) == a \in CoprimeQR(M) /\ b \in CoprimeQR(M) /\ Image(Sq(M), FromNat(a)) = Image(Sq(M), FromNat(b)) => a = b
BindAll(M, a, b) == Image(Sq(M), FromNat(a)) = Image(Sq(M), FromNat(b)) => ParityOf(FromNat(a)) = ParityOf(FromNat(b))
SquareLaw(M, a, b) == /\ Image(Sq(M), FromNat(a)) = FromNat(Md(a * a, M))
                      /\ BindQR(M, a, b)
BitsLaw(v, n) ==
  LET b == ValueBits(FromNat(v), n)
  IN /\ Len(b) = n /\ \A i \in 1..n : b[i] = Md(v \div (2 ^ (n - i)), 2)
     /\ v < 2 ^ n => FromBits(b) = FromNat(v)
     /\ ParityOf(FromNat(v)) = Md(Cardinality({ i \in 0..20 : Md(v \div (2 ^ i), 2) = 1 }), 2)

-----------------------------------------------------------------------------
(* Miller-Rabin: no witness against a prime; at least three quarters of    *)
(* the bases witness a composite                                           *)
Split2(n) == LET e == CHOOSE k \in 1..30 : Md(n - 1, 2 ^ k) = 0 /\ Md((n - 1) \div 2 ^ k, 2) = 1 IN <<e, (n - 1) \div 2 ^ e>>
MrLaw(n) ==          \* odd n >= 5
  LET er == Split2(n)
      wit == { a \in 1..(n - 1) : WitnessB(FromNat(a), FromNat(n), er[1], FromNat(er[2])) }
  IN IF PrimeTD(n) THEN wit = {} ELSE 4 * (n - 1 - Cardinality(wit)) <= n - 1
RECURSIVE Factors(_, _)
Factors(n, d) == IF n = 1 THEN <<>> ELSE IF Md(n, d) = 0 THEN <<d>> \o Factors(n \div d, d) ELSE Factors(n, d + 1)
(* a Lucas certificate exists exactly for primes                           *)
LucasLaw(n) ==
  LET qs == Factors(n - 1, 2)
      c(a) == [a |-> FromNat(a), qs |-> qs, cof |-> V([i \in 1..Len(qs) |-> FromNat((n - 1) \div qs[i])])]
  IN PrimeTD(n) = \E a \in 1..(n - 1) : LucasPrime(FromNat(n), c(a))

-----------------------------------------------------------------------------
(* Graph isomorphism.  Graphs are edge lists on vertices 1..n.             *)
Edges(n) == { e \in (1..n) \X (1..n) : e[1] # e[2] }
Graphs(n, k) == { g \in Seqs(Edges(n), k) : VertsIn(g) = 1..n }
Maps(n) == Seqs(1..n, n)
(* whoever can answer both challenges about the same h knows an            *)
(* isomorphism of g1 and g2; an honest prover can                          *)
IsoSound(g1, g2, h, n) ==
  \A f1, f2 \in Maps(n) :
    Accepts(g1, f1, h) /\ Accepts(g2, f2, h) => \E f \in Perms(n) : Relabel(g1, V(f)) = g2
IsoComplete(g1, n) ==
  \A iso \in { V(f) : f \in Perms(n) } :
    LET g2 == Relabel(g1, iso) IN
    /\ \A r \in HonestRounds(g1, iso) : Accepts(IF r[2] = 1 THEN g1 ELSE g2, r[3], r[1])
    /\ \A r \in SimRounds(g1, g2) : Accepts(IF r[2] = 1 THEN g1 ELSE g2, r[3], r[1])
(* zero knowledge: over the prover's random permutation the honest and the *)
(* simulated rounds are the same bag for either challenge                  *)
Zk(g1, iso, n) ==
  LET g2 == Relabel(g1, iso)
      P == { V(f) : f \in Perms(n) }
      H(p, c) == <<Relabel(g1, p), IF c = 1 THEN InvMap(p) ELSE Compose(iso, InvMap(p))>>
      S(p, c) == <<Relabel(IF c = 1 THEN g1 ELSE g2, p), InvMap(p)>>
  IN \A c \in {1, 2} : \A r \in { H(p, c) : p \in P } \cup { S(p, c) : p \in P } :
       Cardinality({ p \in P : H(p, c) = r }) = Cardinality({ p \in P : S(p, c) = r })

(* 3-coloring: for a properly colored edge the revealed pair is uniform    *)
(* over the six ordered pairs of different colors; an improper edge always *)
(* reveals equal colors                                                    *)
ColorLaw(cu, cv) ==
  LET seen == [pr \in (0..2) \X (0..2) |-> Cardinality({ f \in ColorPerms : <<f[cu], f[cv]>> = pr })]
  IN IF cu # cv THEN \A pr \in DOMAIN seen : seen[pr] = IF pr[1] = pr[2] THEN 0 ELSE 1
     ELSE \A pr \in DOMAIN seen : pr[1] # pr[2] => seen[pr] = 0
(* a graph without a proper coloring has an edge that is caught, whatever  *)
(* the committed colors                                                    *)
K4 == { <<i, j>> \in (1..4) \X (1..4) : i < j }
K4Law(c) == \E e \in K4 : c[e[1]] = c[e[2]]

-----------------------------------------------------------------------------
(* APR: the points of the trace are all different and exhaust the non-zero  *)
(* polynomials below zeta; one of the two cyclic neighbours of a point is   *)
(* the next point, and the other is not in the space of points; H splits    *)
(* into H0 and the shifted H1; a boundary polynomial vanishes on its points *)
(* and nowhere else, and agrees with the claimed values                     *)
AprLaw(R, zeta, marks) ==
  LET w == Len(zeta) - 1
      n == 2 ^ w - 1
      pt == V([i \in 1..n |-> Point(R, zeta, i - 1)])
      all == { GfReduce(R, f) : f \in Span(GPows(w), <<>>) }
      bs == V(SelectSeq(pt, LAMBDA q : \E i \in marks : i <= n /\ pt[i] = q))
      vs == V([i \in 1..Len(bs) |-> GfReduce(R, GPow(Md(3 * i, 5)))])
      Z == V(PRoots(R, bs))
  IN /\ { pt[i] : i \in 1..n } = all \ {RZero(R)}
     /\ \A i \in 1..n :
          LET a == PEval(R, CycPoly(R, <<>>), pt[i]) b == PEval(R, CycPoly(R, zeta), pt[i]) nx == pt[Md(i, n) + 1]
          IN /\ nx \in {a, b}
             /\ {a, b} \cap all = {nx}
     /\ Span(GPows(w), <<>>) = Span(GPows(w - 1), <<>>) \cup Span(GPows(w - 1), GPow(w - 1))
     /\ Span(GPows(w - 1), <<>>) \cap Span(GPows(w - 1), GPow(w - 1)) = {}
     /\ { e \in RElems(R) : RIsZero(R, PEval(R, Z, e)) } = { bs[i] : i \in 1..Len(bs) }
     /\ LET f == PInterp(R, bs, vs) IN \A i \in 1..Len(bs) : PEval(R, f, bs[i]) = vs[i]

GF32 == [k |-> "gf", p |-> 2, m |-> 5, mod |-> <<1, 0, 1, 0, 0, 1>>]
GF64 == [k |-> "gf", p |-> 2, m |-> 6, mod |-> <<1, 1, 0, 0, 0, 0, 1>>]
-----------------------------------------------------------------------------
First ==
  CASE Mode = "float" -> { <<"4", a>> : a \in Floats(GF4) } \cup (IF Size = 0 THEN {} ELSE { <<"8", a>> : a \in Floats(GF8) })
    [] Mode = "square" -> { <<M, a>> : M \in {21, 33, 77} \cup (IF Size = 0 THEN {} ELSE {57, 161, 209}), a \in 0..208 }
    [] Mode = "squareall" -> { <<77, a>> : a \in 1..76 }
    [] Mode = "bits" -> { <<v, 0>> : v \in 0..(300 + 3000 * Size) }
    [] Mode = "mr" -> { <<2 * k + 1, 0>> : k \in 2..(75 + 175 * Size) }
    [] Mode = "lucas" -> { <<k, 0>> : k \in 3..(80 + 120 * Size) }
    [] Mode = "iso" -> { <<g, h>> : g \in Graphs(3, 2), h \in Seqs(Edges(3), 2) }
                     \cup (IF Size = 0 THEN {} ELSE { <<g, h>> : g \in { <<<<1, 2>>, <<2, 3>>, <<1, 3>>>>, <<<<1, 2>>, <<2, 1>>, <<2, 3>>>>,
                                                                      <<<<1, 2>>, <<2, 3>>, <<3, 1>>>> }, h \in Seqs(Edges(3), 3) })
    [] Mode = "zk" -> { <<g, f>> : g \in Graphs(3, 2) \cup (IF Size = 0 THEN {} ELSE Graphs(4, 3)), f \in {0} }
    [] Mode = "apr" -> { <<R, z>> \in {GF32, GF64} \X UNION { { V(q \o <<1>>) : q \in Seqs({0, 1}, d) } : d \in 2..4 } : Primitive(Z2, z) }
    [] Mode = "color" -> { <<a, b>> : a, b \in 0..2 }
Second(f) ==
  CASE Mode = "float" -> Floats(IF f[1] = "4" THEN GF4 ELSE GF8)
    [] Mode \in {"square", "squareall"} -> 0..(f[1] - 1)
    [] Mode = "bits" -> {1, 4, 8, 12}
    [] Mode \in {"mr", "lucas"} -> {0}
    [] Mode = "iso" -> Graphs(3, Len(f[1]))
    [] Mode = "zk" -> { V(g) : g \in Perms(NumV(f[1])) }
    [] Mode = "apr" -> SUBSET (IF Size = 0 THEN {1, 2, 3, 7} ELSE {1, 2, 3, 4, 7, 8, 15})
    [] Mode = "color" -> Seqs(0..2, 4)
Init == x \in First /\ y = <<"pick">>
Next == y = <<"pick">> /\ y' \in { <<"ok", s>> : s \in Second(x) } /\ UNCHANGED x
Law ==
  y # <<"pick">> =>
    LET b == y[2] IN
    CASE Mode = "float" -> FloatLaw(IF x[1] = "4" THEN GF4 ELSE GF8, x[2], b)
      [] Mode = "square" -> SquareLaw(x[1], x[2], b)
      [] Mode = "squareall" -> BindAll(x[1], x[2], b)
      [] Mode = "bits" -> BitsLaw(x[1], b)
      [] Mode = "mr" -> MrLaw(x[1])
      [] Mode = "lucas" -> LucasLaw(x[1])
      [] Mode = "iso" -> IsoSound(x[1], b, x[2], 3)
      [] Mode = "zk" -> Zk(x[1], b, NumV(x[1])) /\ IsoComplete(x[1], NumV(x[1]))
      [] Mode = "apr" -> AprLaw(x[1], x[2], b)
      [] Mode = "color" -> ColorLaw(x[1], x[2]) /\ K4Law(b)
=============================================================================

------------------------------ MODULE ProtoLaws -----------------------------
(***************************************************************************)
(* What the verifiers of Protocol.tla guarantee, checked by TLC on small   *)
(* instances: Merkle openings are complete and binding, the spot-check map *)
(* lists the allowed positions, folding keeps honest low-degree words low  *)
(* degree and all but a few challenges expose other words, and the STARK   *)
(* equations hold for low-degree quotients exactly when the witness is a   *)
(* valid execution with the claimed boundary values.                       *)
(***************************************************************************)
EXTENDS Protocol
CONSTANTS Mode, Size
VARIABLES x, y

-----------------------------------------------------------------------------
(* Merkle.  Hashing is symbolic: injective, and no leaf is a hash (that byte  *)
(* strings keep that promise: MerkleBytes).                                *)
HashOf(a, b) == "(" \o a \o b \o ")"
RECURSIVE HeapUp(_)
HeapUp(level) == IF Len(level) = 1 THEN <<level>>
                 ELSE <<level>> \o HeapUp(V([i \in 1..(Len(level) \div 2) |-> HashOf(level[2 * i - 1], level[2 * i])]))
Bottom(leaves) == LET n == Len(leaves) IN V([k \in 1..n |-> leaves[(CHOOSE i \in 0..(n - 1) : Slot(i, n) = k - 1) + 1]])
Levels(leaves) == V(HeapUp(Bottom(leaves)))
RootOf(leaves) == LET L == Levels(leaves) IN L[Len(L)][1]
Known(leaves) == UNION { { lv[j] : j \in 1..Len(lv) } : lv \in { Levels(leaves)[k] : k \in 1..Len(Levels(leaves)) } }
(* the oracle's answers along a path chosen by an adversary                *)
RECURSIVE PathFrom(_, _, _)
PathFrom(v, k, sibs) == IF sibs = <<>> THEN <<>>
  ELSE LET s == Head(sibs) nx == IF Md(k, 2) = 1 THEN HashOf(s, v) ELSE HashOf(v, s)
       IN <<<<v, s, HashOf(v, s), HashOf(s, v)>>>> \o PathFrom(nx, k \div 2, Tail(sibs))
HonestSibs(leaves, i) ==
  LET n == Len(leaves) k == Slot(i, n) L == Levels(leaves)
  IN V([d \in 1..Log2(n) |-> LET at == k \div (2 ^ (d - 1)) IN L[d][(IF Md(at, 2) = 0 THEN at + 1 ELSE at - 1) + 1]])
Branch(leaf, n, i, sibs) == [leaf |-> leaf, dig |-> leaf, path |-> PathFrom(leaf, n + Slot(i, n), sibs)]
SlotLaw(n) == { Slot(i, n) : i \in 0..(n - 1) } = 0..(n - 1)
MerkleLaw(leaves, i, leaf, sibs) ==
  LET n == Len(leaves) root == RootOf(leaves) br == Branch(leaf, n, i, sibs)
  IN /\ Opens(Branch(leaves[i + 1], n, i, HonestSibs(leaves, i)), root, i, n)
     /\ OracleOk(br, i, n) \/ Len(sibs) # Log2(n)
     /\ Opens(br, root, i, n) => /\ leaf = leaves[i + 1]
                                 /\ sibs = HonestSibs(leaves, i)

-----------------------------------------------------------------------------
PosLaw(m, e) ==
  /\ NumAllowed(m, e) = Len(Allowed(m, e))
  /\ \A k \in 1..NumAllowed(m, e) : NthAllowed(k - 1, e) = Allowed(m, e)[k]
  /\ \A b \in {<<0, 0, 0, 1>>, <<0, 1, 2, 3>>, <<0, 255, 254, 253>>, <<1, 0, 0, 7>>} :
       BytesMod24(b, m) = Md(FoldLeft(LAMBDA acc, d : acc * 256 + d, 0, b), m)
Combine(a, b, c) == Positions(<<0, 0, a, b, 0, 0, b, c>>, 24, 2, 4)
PosLaw2(a, b, c) == \A i \in 1..2 : Combine(a, b, c)[i] \in 0..23 /\ Md(Combine(a, b, c)[i], 4) # 0

-----------------------------------------------------------------------------
(* FRI over Z_17; domain generated by g of order n                         *)
Z17 == [k |-> "zp", p |-> 17]
Z5 == [k |-> "zp", p |-> 5]
Pw(R, g, i) == RPow(R, g, i)
Quad(R, g, n, j) == V([k \in 1..4 |-> Pw(R, g, j + (k - 1) * (n \div 4))])
RowLaw(R, xs, ys, s) ==
  LET f == V(PInterp(R, xs, ys)) IN
  \A c \in RElems(R) : RowFits(R, xs, ys, s, c) = RowFitsDef(R, xs, ys, s, c)
Column(R, g, n, word, s) ==        \* the folded word
  V([j \in 1..(n \div 4) |-> PEval(R, PInterp(R, Quad(R, g, n, j - 1), V([k \in 1..4 |-> word[j + (k - 1) * (n \div 4)]])), s)])
WordOf(R, g, n, f) == V([i \in 1..n |-> PEval(R, f, Pw(R, g, i - 1))])
ColX(R, g, n) == V([j \in 1..(n \div 4) |-> Pw(R, g, 4 * (j - 1))])
LowDeg(R, xs, ys, m) == Len(PInterp(R, xs, ys)) <= m
(* an honest word of degree < m folds to degree < m / 4 (rounded down, as  *)
(* the implementation does)                                                *)
FoldLaw(m, f, s) == LowDeg(Z17, ColX(Z17, 3, 16), Column(Z17, 3, 16, WordOf(Z17, 3, 16, f), s), m \div 4)
(* a word on 8 points that has no polynomial of degree < 4 folds to a      *)
(* constant for at most 3 challenges                                       *)
SoundLaw(word) ==
  LET xs == V([i \in 1..8 |-> Pw(Z17, 9, i - 1)])
      good == { s \in 0..16 : LowDeg(Z17, ColX(Z17, 9, 8), Column(Z17, 9, 8, word, s), 1) }
  IN IF LowDeg(Z17, xs, word, 4) THEN good = 0..16 ELSE Cardinality(good) <= 3

-----------------------------------------------------------------------------
(* STARK over Z_17: 4 steps, extension 4, domain of order 16               *)
Mon(es) == MFromPairs(es)
StepFs == <<                    \* width, step polynomials
  <<1, <<Mon(<<<<<<1>>, 1>>, <<<<0>>, 1>>>>)>>>>,                     \* x + 1
  <<1, <<Mon(<<<<<<2>>, 1>>>>)>>>>,                                   \* x^2
  <<1, <<Mon(<<<<<<2>>, 1>>, <<<<1>>, 1>>, <<<<0>>, 3>>>>)>>>>,       \* x^2 + x + 3
  <<2, <<Mon(<<<<<<0, 1>>, 1>>>>), Mon(<<<<<<1, 0>>, 1>>, <<<<0, 1>>, 1>>>>)>>>> >>    \* Fibonacci
Cfg(k) == [rid |-> "_", steps |-> 4, ext |-> 4, width |-> StepFs[k][1], samples |-> 1, g |-> 3, fs |-> StepFs[k][2], inp |-> <<>>, out |-> <<>>]
StarkLaw(k, wit, inp, out) ==          \* wit: width columns of 4 values
  LET R == Z17
      C == [Cfg(k) EXCEPT !.inp = inp, !.out = out]
      w == C.width
      last == LastPos(R, C)
      sd == V([i \in 1..4 |-> Pw(R, 3, 4 * (i - 1))])
      P == V([j \in 1..w |-> PInterp(R, sd, wit[j])])
      off == Allowed(16, 4)             \* positions outside the step domain
      at(pos) == V([j \in 1..w |-> PEval(R, P[j], Pw(R, 3, pos))])
      dAt(pos, j) == LET X == Pw(R, 3, pos)
                     IN RDiv(R, RMul(R, RSub(R, at(Md(pos + 4, 16))[j], MEval(R, C.fs[j], at(pos))), RSub(R, X, last)), RSub(R, RPow(R, X, 4), 1))
      bAt(pos, j) == LET X == Pw(R, 3, pos)
                         lin == RDiv(R, RAdd(R, RMul(R, inp[j], RSub(R, last, X)), RMul(R, out[j], RSub(R, X, 1))), RSub(R, last, 1))
                     IN RDiv(R, RSub(R, at(pos)[j], lin), RMul(R, RSub(R, X, 1), RSub(R, X, last)))
      xs == V([i \in 1..Len(off) |-> Pw(R, 3, off[i])])
      D == V([j \in 1..w |-> PInterp(R, xs, V([i \in 1..Len(off) |-> dAt(off[i], j)]))])
      Bp == V([j \in 1..w |-> PInterp(R, xs, V([i \in 1..Len(off) |-> bAt(off[i], j)]))])
      bound == 4 * StepDeg(C)
      low == \A j \in 1..w : Len(D[j]) <= bound /\ Len(Bp[j]) <= bound
      valid == ValidTrace(R, C.fs, wit, inp) /\ StateAt(wit, 4) = out
  IN /\ valid <=> low
     /\ \A i \in 1..Len(off) : \A j \in 1..w :
          /\ Transition(R, C, xs[i], last, at(off[i]), at(Md(off[i] + 4, 16)), PEval(R, D[j], xs[i]), j)
          /\ BoundaryEq(R, C, xs[i], last, at(off[i])[j], PEval(R, Bp[j], xs[i]), j)
          /\ ~Transition(R, C, xs[i], last, at(off[i]), at(Md(off[i] + 4, 16)), RAdd(R, PEval(R, D[j], xs[i]), 1), j)
          /\ ~BoundaryEq(R, C, xs[i], last, at(off[i])[j], RAdd(R, PEval(R, Bp[j], xs[i]), 1), j)
     /\ valid => \A pos \in 0..15 : \A j \in 1..w :
          /\ Transition(R, C, Pw(R, 3, pos), last, at(pos), at(Md(pos + 4, 16)), PEval(R, D[j], Pw(R, 3, pos)), j)
          /\ BoundaryEq(R, C, Pw(R, 3, pos), last, at(pos)[j], PEval(R, Bp[j], Pw(R, 3, pos)), j)
     \* the committed combination of low-degree columns is low degree
     /\ LET ks == <<3, 5, 7, 11>>
            lc(pos) == LinComb(R, C, ks, V([j \in 1..w |-> 2 + j]), at(pos), V([j \in 1..w |-> PEval(R, D[j], Pw(R, 3, pos))]),
                               V([j \in 1..w |-> PEval(R, Bp[j], Pw(R, 3, pos))]))
        IN StepDeg(C) = 1 /\ w = 1 /\ valid => Len(PInterp(R, xs, V([i \in 1..Len(off) |-> lc(off[i])]))) <= 12

-----------------------------------------------------------------------------
(* leaves: unpacking gives back the encodings, the encodings the values,    *)
(* and different tuples never share a leaf                                  *)
G8 == [k |-> "gf", p |-> 2, m |-> 3, mod |-> <<1, 1, 0, 1>>]
G9 == [k |-> "gf", p |-> 3, m |-> 2, mod |-> <<2, 1, 1>>]
Z257 == [k |-> "zp", p |-> 257]
PackLaw(R, a, b) ==
  LET t(s) == V([i \in 1..Len(s) |-> <<R, s[i]>>])
      la == Pack(t(a)) lb == Pack(t(b))
  IN /\ Len(la) = 32 * Len(a)
     /\ \A i \in 1..Len(a) : /\ Unpack(la, Len(a))[i] = REnc(R, a[i])
                             /\ R.k = "zp" => FoldLeft(LAMBDA acc, d : acc * 256 + d, 0, SubSeq(Unpack(la, Len(a))[i], 29, 32)) = a[i]
     /\ (la = lb) <=> (a = b)

(* powers until one: as many as the order, all different, each the power;   *)
(* the list of a generator is the whole multiplicative group                *)
CycleLaw(R, w) ==
  LET c == CycleOf(R, w) n == Len(c)
  IN /\ \A i \in 1..n : c[i] = RPow(R, w, i - 1)
     /\ RPow(R, w, n) = ROne(R)
     /\ \A i, j \in 1..n : i # j => c[i] # c[j]
     /\ Md(Cardinality(RElems(R)) - 1, n) = 0
(* MiMC with cubing prime to the group order permutes the field, whatever   *)
(* the constants                                                            *)
MimcLaw(p, ks, steps) ==
  LET R == [k |-> "zp", p |-> p] im == { Mimc(R, v, ks, steps) : v \in 0..(p - 1) }
  IN /\ Cardinality(im) = p
     /\ \A v \in 0..(p - 1) : /\ Mimc(R, v, ks, 1) = v
                              /\ Mimc(R, v, ks, steps + 1) = CubeStep(R, Mimc(R, v, ks, steps), ks[Md(steps - 1, Len(ks)) + 1])
Pow2Law(n) == OneBit(n) <=> \E k \in 0..20 : 2 ^ k = n

-----------------------------------------------------------------------------
Leaves == IF Size = 0 THEN {<<"a", "b", "c", "d">>, <<"a", "a", "b", "b">>, <<"a", "b", "a", "b">>, <<"b", "b", "b", "b">>} ELSE {<<"a", "b", "c", "d">>, <<"a", "b", "c", "d", "a", "b", "c", "d">>}
Seqs(S, n) == { V([i \in 1..n |-> f[i]]) : f \in [1..n -> S] }
FoldF(m) == { PStrip(Z17, f) : f \in Seqs(IF Size = 0 THEN {0, 1, 16} ELSE {0, 1, 5, 16}, m) }
Some(R) == IF R.p = 257 THEN (IF Size = 0 THEN {0, 1, 255, 256} ELSE {0, 1, 2, 127, 255, 256}) ELSE {0, 1, 16}
Tuples(R) == UNION { Seqs(Some(R), k) : k \in 1..2 } \cup (IF Size = 1 THEN Seqs({0, 1, 256}, 3) ELSE {})
First ==
  CASE Mode = "slots" -> { <<d>> : d \in 2..(7 + Size) }
    [] Mode = "merkle" -> UNION { { <<l, i, v>> : i \in 0..(Len(l) - 1), v \in Known(l) \cup {"z"} } : l \in Leaves }
    [] Mode = "positions" -> { <<"map", m, e>> : m \in 1..(40 + 60 * Size), e \in {0} \cup 2..9 } \cup { <<"words", a, 0>> : a \in {0, 1, 7, 255} }
    [] Mode = "rows" -> { <<1, s>> : s \in 0..4 } \cup { <<2, s>> : s \in {0, 1, 6, 16} }
    [] Mode = "fold" -> { <<m, s>> : m \in {4, 8}, s \in (IF Size = 0 THEN {0, 1, 6} ELSE {0, 1, 2, 6, 15, 16}) }
    [] Mode = "foldfloor" -> { <<5, s>> : s \in {6} }
    [] Mode = "sound" -> { <<a, b>> : a, b \in {0, 1} }
    [] Mode = "pack" -> UNION { { <<R, s>> : s \in Tuples(R) } : R \in {Z257, Z17} }
    [] Mode = "cycle" -> { <<R, 0>> : R \in {Z5, Z17, G8, G9} }
    [] Mode = "mimc" -> { <<p, ks>> : p \in {5, 11, 17}, ks \in Seqs({0, 1, 3}, 1) \cup Seqs({0, 1, 3}, 2) \cup (IF Size = 0 THEN {} ELSE Seqs(0..4, 3)) }
    [] Mode = "pow2" -> { <<n, 0>> : n \in 0..(600 + 4000 * Size) }
    [] Mode = "stark" -> { <<k, a, b>> : k \in 1..4, a, b \in (IF Size = 0 THEN {0, 1, 2} ELSE {0, 1, 2, 4, 5}) }
Second(f) ==
  CASE Mode = "slots" -> {0}
    [] Mode = "merkle" -> UNION { Seqs(Known(f[1]) \cup {"z"}, k) : k \in {1, Log2(Len(f[1]))} }
    [] Mode = "positions" -> IF f[1] = "map" THEN {<<0, 0>>} ELSE { <<b, c>> : b, c \in {0, 1, 100, 254, 255} }
    [] Mode = "rows" -> IF f[1] = 1 THEN { <<0, ys>> : ys \in Seqs(0..4, 4) } ELSE { <<j, ys>> : ys \in Seqs({0, 1, 8}, 4), j \in {0, 1, 3} }
    [] Mode = "fold" -> FoldF(IF f[1] = 4 THEN 4 ELSE 6)
    [] Mode = "foldfloor" -> FoldF(5)
    [] Mode = "sound" -> Seqs(IF Size = 0 THEN {0, 1} ELSE {0, 1, 3}, 6)
    [] Mode = "pack" -> { s \in Tuples(f[1]) : Len(s) = Len(f[2]) }
    [] Mode = "cycle" -> RElems(f[1]) \ {RZero(f[1])}
    [] Mode = "mimc" -> 2..(6 + 6 * Size)
    [] Mode = "pow2" -> {0}
    [] Mode = "stark" -> IF f[1] = 4 THEN { <<<<<<f[2], f[3], c, d>>, <<f[3], c, d, e>>>>, <<f[2], f[3]>>, <<d, e>>>> : c, d, e \in (IF Size = 0 THEN {1, 2, 3, 5} ELSE {0, 1, 2, 3, 5, 8}) }
                              \cup { <<<<<<f[2], f[3], c, d>>, <<c, d, e, d>>>>, <<f[2], c>>, <<d, d>>>> : c, d, e \in {0, 1, 2} }
                         ELSE { <<<<<<f[2], f[3], c, d>>>>, <<f[2]>>, <<d>>>> : c, d \in (IF Size = 0 THEN {0, 1, 2, 3, 5, 6} ELSE 0..16) }
                              \cup { <<<<<<f[2], f[3], 5, 6>>>>, <<i>>, <<o>>>> : i, o \in {0, 1, 5, 6} }
Init == x \in First /\ y = <<"pick">>
Next == y = <<"pick">> /\ y' \in { <<"ok", s>> : s \in Second(x) } /\ UNCHANGED x
Law ==
  y # <<"pick">> =>
    LET b == y[2] IN
    CASE Mode = "slots" -> SlotLaw(2 ^ x[1])
      [] Mode = "merkle" -> MerkleLaw(x[1], x[2], x[3], b)
      [] Mode = "positions" -> IF x[1] = "map" THEN PosLaw(x[2], x[3]) ELSE PosLaw2(x[2], b[1], b[2])
      [] Mode = "rows" -> IF x[1] = 1 THEN RowLaw(Z5, Quad(Z5, 2, 4, 0), b[2], x[2]) ELSE RowLaw(Z17, Quad(Z17, 3, 16, b[1]), b[2], x[2])
      [] Mode \in {"fold", "foldfloor"} -> FoldLaw(x[1], b, x[2])
      [] Mode = "sound" -> SoundLaw(b \o <<x[1], x[2]>>)
      [] Mode = "pack" -> PackLaw(x[1], x[2], b)
      [] Mode = "cycle" -> CycleLaw(x[1], b)
      [] Mode = "mimc" -> MimcLaw(x[1], x[2], b)
      [] Mode = "pow2" -> Pow2Law(x[1])
      [] Mode = "stark" -> StarkLaw(x[1], b[1], b[2], b[3])
=============================================================================

------------------------------ MODULE Protocol -----------------------------
(***************************************************************************)
(* The protocols: Merkle openings, spot-check positions, the low-degree    *)
(* (FRI) verifier, the STARK component polynomials and the STARK verifier. *)
(*                                                                         *)
(* The hash function is an uninterpreted oracle.  Byte strings are named   *)
(* by numbers (equal bytes, equal number), and a branch comes with the     *)
(* oracle's answers along its path: an entry is                            *)
(*     <<v, sibling, H(v, sibling), H(sibling, v)>>                        *)
(* The specification walks the path itself: it demands that every entry    *)
(* starts from the value it computed, and picks the side.                  *)
(***************************************************************************)
EXTENDS Vals

(* Reading a big-endian byte sequence modulo m < 2^24 without leaving 32   *)
(* bits: one hexadecimal digit at a time.                                  *)
BytesMod24(bs, m) ==
  FoldLeft(LAMBDA acc, d : Md(Md(acc * 16 + (d \div 16), m) * 16 + Md(d, 16), m), 0, bs)

(* residue of a byte string in a ring with p < 2^24 or big                 *)
ResBytes(R, bs) == RBytes(R, bs)

-----------------------------------------------------------------------------
(* Spot-check positions.  data: the entropy followed by as many digests as *)
(* needed; words are 4 bytes.  Allowed positions: 0..m-1 without the       *)
(* multiples of e (e = 0: all), in increasing order.                       *)
Allowed(m, e) == IF e = 0 THEN Rng(0, m - 1) ELSE SelectSeq(Rng(0, m - 1), LAMBDA x : Md(x, e) # 0)
Words(data, count) == V([i \in 1..count |-> SubSeq(data, 4 * i - 3, 4 * i)])
(* the same map in closed form, for moduli where listing is not practical  *)
NumAllowed(m, e) == IF e = 0 THEN m ELSE m - ((m + e - 1) \div e)
NthAllowed(x, e) == IF e = 0 THEN x ELSE (x \div (e - 1)) * e + Md(x, e - 1) + 1
Positions(data, m, count, e) ==
  LET k == NumAllowed(m, e)
  IN V([i \in 1..count |-> NthAllowed(BytesMod24(SubSeq(data, 4 * i - 3, 4 * i), k), e)])

-----------------------------------------------------------------------------
(* Merkle trees of n = 2^d leaves.  Leaf i of the list sits at heap        *)
(* position n + Slot(i, n).                                                *)
Slot(i, n) == (i \div (n \div 4)) + 4 * Md(i, n \div 4)
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)

(* br = [leaf |-> id, dig |-> id, path |-> entries].  A walk fails when the oracle's    *)
(* answers do not belong to this path.  br.dig is the digest of the leaf.  *)
WalkStep(acc, e) ==        \* acc = <<value, heap index, answers fit>>
  IF ~acc[3] \/ e[1] # acc[1] THEN <<acc[1], 0, FALSE>>
  ELSE <<IF Md(acc[2], 2) = 1 THEN e[4] ELSE e[3], acc[2] \div 2, TRUE>>
Walk(br, i, n) == FoldLeft(WalkStep, <<br.dig, n + Slot(i, n), TRUE>>, br.path)
Opens(br, root, i, n) == Len(br.path) = Log2(n) /\ LET w == Walk(br, i, n) IN w[3] /\ w[1] = root
OracleOk(br, i, n) == Len(br.path) # Log2(n) \/ Walk(br, i, n)[3]

-----------------------------------------------------------------------------
(* FRI.  One round: the four values at x, x*i, -x, -x*i of a row and the   *)
(* column value at s agree with one polynomial of degree < 4:              *)
(*   L_j(s) = PROD_{k#j} (s - x_k) / (4 x_j^3), so                          *)
(*   4 x^4 c = SUM_j  y_j x_j PROD_{k#j} (s - x_k)                          *)
RowFits(R, xs, ys, s, c) ==
  LET others(j) == FoldLeft(LAMBDA acc, k : IF k = j THEN acc ELSE RMul(R, acc, RSub(R, s, xs[k])), ROne(R), <<1, 2, 3, 4>>)
      rhs == FoldLeft(LAMBDA acc, j : RAdd(R, acc, RMul(R, RMul(R, ys[j], xs[j]), others(j))), RZero(R), <<1, 2, 3, 4>>)
  IN RMul(R, RMul(R, RInt(R, 4), RPow(R, xs[1], 4)), c) = rhs
(* the defining form, for fields where inverses are cheap                  *)
RowFitsDef(R, xs, ys, s, c) == PEval(R, PInterp(R, xs, ys), s) = c

RECURSIVE OrderFrom(_, _, _)
OrderFrom(R, t, k) == IF t = ROne(R) THEN k ELSE OrderFrom(R, V(RMul(R, t, t)), 2 * k)
Order2(R, g) == OrderFrom(R, g, 1)           \* g of power-of-two order

(* a component: [root |-> id of the column root, data |-> entropy bytes,    *)
(*   brs |-> one [col, row] per sample]; bytes(id) gives leaf bytes        *)
FriRound(R, bytes, comp, root, g, n, excl, samples) ==
  LET q == n \div 4
      ys == Positions(comp.data, q, samples, excl)
      s == ResBytes(R, bytes[root])
      i4 == RPow(R, g, q)
      W == V(<<ROne(R), i4, RMul(R, i4, i4), RMul(R, i4, RMul(R, i4, i4))>>)
      okAt(k) ==
        LET b == comp.brs[k] y == ys[k] x == V(RPow(R, g, y))
            xs == V([j \in 1..4 |-> RMul(R, x, W[j])])
        IN /\ Opens(b.col, comp.root, y, q)
           /\ \A j \in 1..4 : Opens(b.row[j], root, y + q * (j - 1), n)
           /\ RowFits(R, xs, V([j \in 1..4 |-> ResBytes(R, bytes[b.row[j].leaf])]), s, ResBytes(R, bytes[b.col.leaf]))
  IN /\ Len(comp.brs) >= samples
     /\ \A k \in 1..samples : okAt(k)
FriOracle(comp, n, excl, samples) ==
  LET q == n \div 4
      ys == Positions(comp.data, q, samples, excl)
  IN \A k \in 1..Min2(samples, Len(comp.brs)) :
       /\ OracleOk(comp.brs[k].col, ys[k], q)
       /\ \A j \in 1..4 : OracleOk(comp.brs[k].row[j], ys[k] + q * (j - 1), n)

(* The last component gives all values.  fin: [vals |-> byte strings,      *)
(* nodes |-> ids of the heap 1..2n-1 (by the oracle), leaves |-> bytes at  *)
(* the bottom, poly |-> coefficients].  Its root must be the one committed *)
(* to, and the values at the allowed positions must lie on one polynomial  *)
(* of degree < m.                                                          *)
ValBytes(b) == LET t == Trim(RevSeq(b)) IN RevSeq(PadTo(t, 32))
FriFinal(R, fin, root, g, m, excl) ==
  LET n == Len(fin.vals)
      pts == Allowed(n, excl)
      y(i) == ResBytes(R, fin.vals[i + 1])
      first == SubSeq(pts, 1, Min2(m, Len(pts)))
      ws == FoldLeft(LAMBDA acc, i : Append(acc, RMul(R, acc[Len(acc)], g)), <<ROne(R)>>, Rng(1, n - 1))
  IN /\ m <= 16
     /\ \A i \in 1..n : Len(ValBytes(fin.vals[i])) = 32
     /\ fin.root = root
     /\ Order2(R, g) = n
     /\ \A i \in 1..Len(pts) : PEval(R, fin.poly, ws[pts[i] + 1]) = y(pts[i])
(* the oracle's heap is over exactly these values, and the hint polynomial *)
(* is the interpolant through the first m allowed positions                *)
FriFinalOracle(R, fin, g, m, excl) ==
  LET n == Len(fin.vals)
      pts == Allowed(n, excl)
      ws == FoldLeft(LAMBDA acc, i : Append(acc, RMul(R, acc[Len(acc)], g)), <<ROne(R)>>, Rng(1, n - 1))
      k == Min2(m, Len(pts))
  IN /\ \A i \in 0..(n - 1) : fin.leaves[Slot(i, n) + 1] = ValBytes(fin.vals[i + 1])
     /\ Len(fin.poly) <= m
     /\ \A i \in 1..k : PEval(R, fin.poly, ws[pts[i] + 1]) = ResBytes(R, fin.vals[pts[i] + 1])

RECURSIVE FriFrom(_, _, _, _, _, _, _, _, _)
FriFrom(R, bytes, fri, k, root, g, n, m, ep) ==       \* ep = <<exclude, samples>>
  IF k > Len(fri.comps)
  THEN FriFinal(R, fri.fin, root, g, m, ep[1])
  ELSE /\ FriRound(R, bytes, fri.comps[k], root, g, n, ep[1], ep[2])
       /\ FriFrom(R, bytes, fri, k + 1, fri.comps[k].root, V(RPow(R, g, 4)), n \div 4, m \div 4, ep)
FriAccepts(R, bytes, fri, root, g, m, ep) == FriFrom(R, bytes, fri, 1, root, g, Order2(R, g), m, ep)
RECURSIVE FriOracleFrom(_, _, _, _, _, _, _)
FriOracleFrom(R, fri, k, g, n, m, ep) ==
  IF k > Len(fri.comps) THEN Len(fri.fin.vals) # n \/ FriFinalOracle(R, fri.fin, g, m, ep[1])
  ELSE FriOracle(fri.comps[k], n, ep[1], ep[2]) /\ FriOracleFrom(R, fri, k + 1, V(RPow(R, g, 4)), n \div 4, m \div 4, ep)
FriOracleOk(R, fri, g, m, ep) == FriOracleFrom(R, fri, 1, g, Order2(R, g), m, ep)

-----------------------------------------------------------------------------
(* The STARK.  C: [rid, steps, ext, width, samples, g (a root of unity of  *)
(* order steps*ext), fs (step polynomials), inp, out].                     *)
Prec(C) == C.steps * C.ext
LastPos(R, C) == RPow(R, C.g, (C.steps - 1) * C.ext)
StepDeg(C) == FoldLeft(LAMBDA a, f : Max2(a, MDeg(f)), 0, C.fs)
PowerK(R, C) == RPow(R, C.g, C.steps * (Prec(C) - 1))
Leaf32(R, bs, i) == ResBytes(R, SubSeq(bs, 32 * i - 31, Min2(32 * i, Len(bs))))      \* i-th value of a packed leaf

(* the equations at one spot-checked position pos, x = g^pos               *)
LinComb(R, C, ks, lks, ps, ds, bs) ==
  LET pw == V(PowerK(R, C))
      one(j) == RAdd(R, ds[j], RAdd(R, RMul(R, ps[j], RAdd(R, ks[1], RMul(R, ks[2], pw))),
                                       RMul(R, bs[j], RAdd(R, ks[3], RMul(R, ks[4], pw)))))
  IN FoldLeft(LAMBDA acc, j : LET o == V(one(j)) IN RAdd(R, acc, RAdd(R, o, RMul(R, o, RMul(R, lks[j], pw)))), RZero(R), Rng(1, C.width))
Transition(R, C, x, last, ps, nx, d, j) ==
  RMul(R, RSub(R, nx[j], MEval(R, C.fs[j], ps)), RSub(R, x, last)) = RMul(R, RSub(R, RPow(R, x, C.steps), ROne(R)), d)
BoundaryEq(R, C, x, last, p, b, j) ==
  RMul(R, RSub(R, p, RMul(R, b, RMul(R, RSub(R, x, ROne(R)), RSub(R, x, last)))), RSub(R, last, ROne(R)))
    = RAdd(R, RMul(R, C.inp[j], RSub(R, last, x)), RMul(R, C.out[j], RSub(R, x, ROne(R))))
SpotOk(R, bytes, C, prf, ks, lks, last, pos, b) ==
  LET x == V(RPow(R, C.g, pos))
      w == C.width
      lf == bytes[b[1].leaf]
      ps == V([j \in 1..w |-> Leaf32(R, lf, j)])
      ds == V([j \in 1..w |-> Leaf32(R, lf, w + j)])
      bs == V([j \in 1..w |-> Leaf32(R, lf, 2 * w + j)])
      nx == V([j \in 1..w |-> Leaf32(R, bytes[b[2].leaf], j)])
  IN /\ Opens(b[1], prf.mroot, pos, Prec(C))
     /\ Opens(b[2], prf.mroot, Md(pos + C.ext, Prec(C)), Prec(C))
     /\ Opens(b[3], prf.lroot, pos, Prec(C))
     /\ \A j \in 1..w : Transition(R, C, x, last, ps, nx, ds[j], j)
     /\ \A j \in 1..w : BoundaryEq(R, C, x, last, ps[j], bs[j], j)
     /\ ResBytes(R, bytes[b[3].leaf]) = LinComb(R, C, ks, lks, ps, ds, bs)
StarkAccepts(R, bytes, C, prf) ==
  LET pos == Positions(prf.data, Prec(C), C.samples, C.ext)
      last == V(LastPos(R, C))
      ks == V([i \in 1..4 |-> ResBytes(R, prf.ks[i])])
      lks == V([i \in 1..C.width |-> ResBytes(R, prf.lks[i])])
  IN /\ FriAccepts(R, bytes, prf.fri, prf.lroot, C.g, C.steps * StepDeg(C), <<C.ext, 40>>)
     /\ Len(prf.brs) >= C.samples
     /\ \A i \in 1..C.samples : SpotOk(R, bytes, C, prf, ks, lks, last, pos[i], prf.brs[i])
StarkOracle(R, C, prf) ==
  LET pos == Positions(prf.data, Prec(C), C.samples, C.ext)
  IN /\ FriOracleOk(R, prf.fri, C.g, C.steps * StepDeg(C), <<C.ext, 40>>)
     /\ \A i \in 1..Min2(C.samples, Len(prf.brs)) :
          /\ OracleOk(prf.brs[i][1], pos[i], Prec(C))
          /\ OracleOk(prf.brs[i][2], Md(pos[i] + C.ext, Prec(C)), Prec(C))
          /\ OracleOk(prf.brs[i][3], pos[i], Prec(C))

(* a witness: w columns of `steps` values; valid iff every next state is   *)
(* the step polynomials' value at the state before                         *)
StateAt(wit, i) == V([j \in 1..Len(wit) |-> wit[j][i]])
ValidTrace(R, fs, wit, inp) ==
  /\ StateAt(wit, 1) = inp
  /\ \A i \in 1..(Len(wit[1]) - 1) : \A j \in 1..Len(wit) : wit[j][i + 1] = MEval(R, fs[j], StateAt(wit, i))
-----------------------------------------------------------------------------
(* several values in one leaf: their 32-byte encodings one after the other; *)
(* vs: sequence of <<ring, value>>                                          *)
Pack(vs) == FoldLeft(LAMBDA acc, x : acc \o REnc(x[1], x[2]), <<>>, vs)
Unpack(bytes, k) == V([i \in 1..k |-> SubSeq(bytes, 32 * i - 31, 32 * i)])

(* helpers: the MiMC loop, the powers of an element, powers of two          *)
CubeStep(R, v, c) == RAdd(R, RMul(R, v, RMul(R, v, v)), c)
Mimc(R, v, ks, steps) == FoldLeft(LAMBDA acc, i : CubeStep(R, acc, ks[Md(i, Len(ks)) + 1]), v, Rng(0, steps - 2))
RECURSIVE CycleFrom(_, _, _)
CycleFrom(R, w, acc) == LET nx == RMul(R, acc[Len(acc)], w) IN IF nx = ROne(R) THEN acc ELSE CycleFrom(R, w, V(Append(acc, nx)))
CycleOf(R, w) == CycleFrom(R, w, <<ROne(R)>>)
RECURSIVE OneBit(_)
OneBit(n) == n >= 1 /\ (n = 1 \/ (Md(n, 2) = 0 /\ OneBit(n \div 2)))
=============================================================================

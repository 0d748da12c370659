----------------------------- MODULE ProtoTrace ----------------------------
(* Judging recorded calls of the protocol code.                            *)
EXTENDS Protocol, Compression, TraceBase

F(v, r) == [ok |-> Same(v, r), v |-> v]
Q(ok, r) == [ok |-> ok, v |-> Norm(r)]
ElemsOf(rid, s) == V([i \in 1..Len(s) |-> E(rid, s[i])])

-----------------------------------------------------------------------------
(* Merkle commitments, abstractly: a commitment is a root, the committed   *)
(* leaves and one opening per position.  Under collision resistance a      *)
(* branch is accepted at a position iff it is the opening of that position *)
(* under that root.                                                        *)
LeafBytes(x) == CASE x.t = "y" -> x.v
                  [] x.t = "i" -> EncZ(x.v)
                  [] x.t = "I" -> RevSeq(PadTo(x.v, 32))
                  [] x.t = "e" -> IF Rings[x.r].k = "gf" THEN <<>> ELSE REnc(Rings[x.r], x.v)
KnownLeaf(x) == ~(x.t = "e" /\ Rings[x.r].k = "gf")
(* result <<root, <<branch 0, branch 1, ...>>>> *)
CommitJ(leaves, r) ==
  LET n == Len(leaves.v)
  IN Q(/\ r.t = "l" /\ Len(r.v) = 2 /\ r.v[1].t = "y" /\ r.v[2].t = "l" /\ Len(r.v[2].v) = n
       /\ \A i \in 1..n :
            LET b == r.v[2].v[i]
            IN /\ b.t = "l" /\ Len(b.v) = Log2(n) + 1
               /\ \A k \in 1..Len(b.v) : b.v[k].t = "y"
               /\ KnownLeaf(leaves.v[i]) => b.v[1].v = LeafBytes(leaves.v[i])
               /\ ~KnownLeaf(leaves.v[i]) =>          \* other encodings: injective
                    \A j \in 1..n : (r.v[2].v[j].v[1] = b.v[1]) <=> (leaves.v[j] = leaves.v[i])
       \* positions with different leaves have different openings
       /\ \A i, j \in 1..n : leaves.v[i] # leaves.v[j] => r.v[2].v[i] # r.v[2].v[j], r)
VerifyBJ(com, root, i, br, asint, r) ==
  LET good == /\ Same(root, com.v[1])
              /\ i.v \in 0..(Len(com.v[2].v) - 1)
              /\ Same(br, com.v[2].v[i.v + 1])
      lf == br.v[1].v
  IN IF ~good THEN F(Exc, r)
     ELSE IF ~asint THEN F(Yv(lf), r)
     ELSE Q(IsInt(r) /\ ~SgnNeg(r) /\ Trim(Mag(r)) = Trim(RevSeq(lf)), r)

(* joint leaves                                                            *)
JointLeaf(evs, i) == Pack(V([k \in 1..Len(evs.v) |-> <<Rings[evs.v[k].v[i].r], evs.v[k].v[i].v>>]))
JointJ(evs, r) ==
  F(Lv(V([i \in 1..Len(evs.v[1].v) |-> Yv(JointLeaf(evs, i))])), r)
UnpackV(leaf, k) == Lv(V([i \in 1..k |-> Yv(Unpack(leaf.v, k)[i])]))

-----------------------------------------------------------------------------
(* result: <<compressed, decompressed, binary length>>                     *)
CompressJ(x, dec(_), r) ==
  Q(/\ r.t = "l" /\ Len(r.v) = 3
    /\ Same(x, r.v[2])
    /\ r.v[1].t = "l" /\ RefsOk(r.v[1].v)
    /\ Same(dec(r.v[1].v), x)
    /\ Same(Iv(BinLen(r.v[1].v)), r.v[3]), r)

-----------------------------------------------------------------------------
(* positions: P.data is the entropy extended by digests, each the oracle's *)
(* answer for the 32 bytes before it (P.h: <<in, out>> pairs)              *)
RECURSIVE ChainOk(_, _, _, _)
ChainOk(data, at, h, k) ==          \* at: bytes consumed so far
  IF k > Len(h) THEN at = Len(data)
  ELSE /\ h[k][1] = SubSeq(data, Max2(1, at - 31), at)
       /\ h[k][2] = SubSeq(data, at + 1, at + 32)
       /\ ChainOk(data, at + 32, h, k + 1)
IndicesJ(ent, P, r) ==
  IF ~Assert(/\ SubSeq(P.data, 1, Len(ent.v)) = ent.v /\ ChainOk(P.data, Len(ent.v), P.h, 1) /\ Len(P.data) >= 4 * P.count,
             "oracle: entropy") THEN F(Exc, r)
  ELSE LET ps == Positions(P.data, P.m, P.count, P.e)
           al == V(Allowed(P.m, P.e))
           word(i) == BytesMod24(SubSeq(P.data, 4 * i - 3, 4 * i), Len(al))
       IN [F(Lv(V([i \in 1..P.count |-> Iv(ps[i])])), r) EXCEPT !.ok =
             /\ @
             /\ \A i \in 1..P.count : ps[i] \in 0..(P.m - 1) /\ (P.e = 0 \/ Md(ps[i], P.e) # 0)
             \* the closed form against the listed positions
             /\ P.m <= 64 => \A i \in 1..P.count : ps[i] = al[word(i) + 1]]

-----------------------------------------------------------------------------
(* helpers                                                                 *)
MimcJ(x, ks, steps, r) ==
  LET R == Rings["MIMC"]
      kv == Elems("MIMC", ks)
      v == Mimc(R, AsElem("MIMC", x), kv, steps)
  IN IF steps < 2 THEN F(x, r)                      \* returned unchanged
     ELSE Q(IsInt(r) /\ ~SgnNeg(r) /\ Trim(Mag(r)) = Trim(v), r)
IsPow2(x) == IF x.t = "i" THEN OneBit(x.v)
             ELSE ~x.neg /\ Cardinality({ i \in 1..Len(x.v) : x.v[i] # 0 }) = 1
                         /\ OneBit(x.v[CHOOSE i \in 1..Len(x.v) : x.v[i] # 0])

(* computational traces                                                    *)
NextState(R, fs, st) == V([j \in 1..Len(fs) |-> MEval(R, fs[j], st)])
RunFrom(R, fs, inp, n) == FoldLeft(LAMBDA acc, i : Append(acc, V(NextState(R, fs, acc[Len(acc)]))), <<inp>>, Rng(1, n - 1))
FsOf(fs) == V([i \in 1..Len(fs.v) |-> fs.v[i].v])
StatesV(rid, tr) == Lv(V([i \in 1..Len(tr) |-> ElemList(rid, tr[i])]))
(* elements may be given (and handed back) as integers                     *)
SameE(rid, v, y) == (y.t = "e" /\ y.r = rid /\ y.v = v) \/ (IsInt(y) /\ IntIn(Rings[rid], y) = v)
SameState(rid, st, y) == y.t = "l" /\ Len(y.v) = Len(st) /\ \A j \in 1..Len(st) : SameE(rid, st[j], y.v[j])
(* result <<states, output>>                                               *)
TraceJ(rid, inp, steps, fs, r) ==
  LET tr == RunFrom(Rings[rid], FsOf(fs), Elems(rid, inp), steps)
  IN Q(/\ r.t = "l" /\ Len(r.v) = 2 /\ r.v[1].t = "l" /\ Len(r.v[1].v) = steps
       /\ \A i \in 1..steps : SameState(rid, tr[i], r.v[1].v[i])
       /\ SameState(rid, tr[steps], r.v[2]), r)
(* AIR: result <<states, output, witness columns, boundary, Polys, circuit value, width>> *)
(* the circuit is the conjunction of all constraints over all rows         *)
CircuitJ(rid, fs, tr, r) ==
  LET R == Rings[rid] f == FsOf(fs)
      row(i) == Elems(rid, tr.v[i])
  IN F(Bv(\A i \in 1..(Len(tr.v) - 1) : NextState(R, f, row(i)) = row(i + 1)), r)
Embed(f, w) == V([e \in { d \o ZerosN(w) : d \in DOMAIN f } |-> f[SubSeq(e, 1, w)]])
AirJ(rid, inp, steps, fs, r) ==
  LET R == Rings[rid]
      w == Len(fs.v)
      f == FsOf(fs)
      tr == RunFrom(R, f, Elems(rid, inp), steps)
  IN Q(/\ r.t = "l" /\ Len(r.v) = 6
       /\ Len(r.v[1].v) = steps /\ \A i \in 1..steps : SameState(rid, tr[i], r.v[1].v[i])
       /\ SameState(rid, tr[steps], r.v[2])
       /\ Len(r.v[3].v) = w
       /\ \A j \in 1..w : Len(r.v[3].v[j].v) = steps /\ \A i \in 1..steps : SameE(rid, tr[i][j], r.v[3].v[j].v[i])
       /\ Len(r.v[4].v) = w
       /\ \A j \in 1..w : /\ Same(Iv(0), r.v[4].v[j].v[1]) /\ Same(Iv(j - 1), r.v[4].v[j].v[2])
                          /\ SameE(rid, tr[1][j], r.v[4].v[j].v[3])
       /\ Len(r.v[5].v) = w
       /\ \A j \in 1..w : Same(Mv(rid, 2 * w, MSub(R, MVar(R, 2 * w, w + j), Embed(f[j], w))), r.v[5].v[j])
       /\ Same(Bv(TRUE), r.v[6]), r)

-----------------------------------------------------------------------------
(* STARK component polynomials                                             *)
Cols(rid, wit) == V([j \in 1..Len(wit.v) |-> Elems(rid, wit.v[j])])
PolysOf(x) == V([i \in 1..Len(x.v) |-> x.v[i].v])
AllPolys(rid, r, n) == r.t = "l" /\ Len(r.v) = n /\ \A i \in 1..n : r.v[i].t = "p" /\ r.v[i].r = rid
TracePolysJ(rid, g, wit, r) ==
  LET R == Rings[rid] c == Cols(rid, wit) ws == CycleOf(R, g.v)
  IN Q(AllPolys(rid, r, Len(c)) /\ \A j \in 1..Len(c) : IsInterp(R, r.v[j].v, ws, c[j]), r)
PScaleArg(R, f, g) ==          \* f(g X)
  LET pw == FoldLeft(LAMBDA acc, i : Append(acc, RMul(R, acc[Len(acc)], g)), <<ROne(R)>>, Rng(1, Max2(0, Len(f) - 1)))
  IN V([i \in 1..Len(f) |-> RMul(R, f[i], pw[i])])
ConstraintPoly(R, f, tps, j, g) == PSub(R, PScaleArg(R, tps[j], g), MEvalP(R, f, tps))
ConstraintsV(rid, fs, tps, g) ==
  Lv(V([j \in 1..Len(fs) |-> Pl(rid, ConstraintPoly(Rings[rid], fs[j], tps, j, g))]))
(* (X^steps - 1) / (X - last): the transition vanishing polynomial         *)
ZPoly(R, steps, last) ==
  PDivModRaw(R, V([i \in 1..(steps + 1) |-> IF i = 1 THEN RNeg(R, ROne(R)) ELSE IF i = steps + 1 THEN ROne(R) ELSE RZero(R)]),
             <<RNeg(R, last), ROne(R)>>, ROne(R))[1]
RemainderJ(rid, cps, steps, last, r) ==
  LET R == Rings[rid] z == V(ZPoly(R, steps, last))
      divides(c) == PDivModRaw(R, c, z, ROne(R))[2] = <<>>
      cs == PolysOf(cps)
  IN IF \E i \in 1..Len(cs) : ~divides(cs[i]) THEN F(Exc, r)
     ELSE Q(AllPolys(rid, r, Len(cs)) /\ \A i \in 1..Len(cs) : PMul(R, r.v[i].v, z) = cs[i], r)
(* boundary polynomials: B * (X-1)(X-last) = P - I                         *)
BoundaryJ(rid, tps, wit, inp, last, r) ==
  LET R == Rings[rid]
      ps == PolysOf(tps)
      ins == Elems(rid, inp)
      z2 == PMul(R, <<RNeg(R, ROne(R)), ROne(R)>>, <<RNeg(R, last), ROne(R)>>)
      out(j) == AsElem(rid, wit.v[j].v[Len(wit.v[j].v)])
      \* (last - 1) I(X) = inp (last - X) + out (X - 1)
      li(j) == PAdd(R, PScale(R, ins[j], <<last, RNeg(R, ROne(R))>>), PScale(R, out(j), <<RNeg(R, ROne(R)), ROne(R)>>))
      sc == RSub(R, last, ROne(R))
      meets(j) == PEval(R, ps[j], ROne(R)) = ins[j] /\ PEval(R, ps[j], last) = out(j)
  IN Q(AllPolys(rid, r, Len(ps)) /\ \A j \in 1..Len(ps) :
         meets(j) => PScale(R, sc, PMul(R, r.v[j].v, z2)) = PSub(R, PScale(R, sc, ps[j]), li(j)), r)
(* pseudorandom coefficients: the oracle's answer for root || tag          *)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + n \div 10, 48 + Md(n, 10)>>
Tag(num, i) == <<48, 120, 48>> \o (IF num <= 4 THEN <<48 + i>> ELSE Digits(i - 1))
KsOk(root, num, h) == Len(h) = num /\ \A i \in 1..num : h[i][1] = root \o Tag(num, i)
KsJ(root, num, h, r) ==
  IF ~Assert(KsOk(root.v, num, h), "oracle: coefficients") THEN F(Exc, r)
  ELSE Q(/\ r.t = "l" /\ Len(r.v) = num
         /\ \A i \in 1..num : IsInt(r.v[i]) /\ ~SgnNeg(r.v[i]) /\ Trim(Mag(r.v[i])) = Trim(RevSeq(h[i][2])), r)
JointV(rid, tps, dps, bps, g, steps, prec, ks, lks) ==
  LET R == Rings[rid]
      pw == V(RPow(R, g, steps * (prec - 1)))
      one(j) == PAdd(R, dps[j], PAdd(R, PScale(R, RAdd(R, ks[1], RMul(R, ks[2], pw)), tps[j]),
                                        PScale(R, RAdd(R, ks[3], RMul(R, ks[4], pw)), bps[j])))
  IN FoldLeft(LAMBDA acc, j : PAdd(R, acc, PScale(R, RAdd(R, ROne(R), RMul(R, lks[j], pw)), V(one(j)))), <<>>, Rng(1, Len(tps)))
JointPJ(rid, root, tps, dps, bps, g, P, r) ==
  IF ~Assert(KsOk(root.v, 4, P.hk) /\ KsOk(root.v, Len(tps.v), P.hl), "oracle: coefficients") THEN F(Exc, r)
  ELSE LET R == Rings[rid]
           k(h) == V([i \in 1..Len(h) |-> ResBytes(R, h[i][2])])
       IN F(Pl(rid, JointV(rid, PolysOf(tps), PolysOf(dps), PolysOf(bps), g.v, P.steps, P.prec, k(P.hk), k(P.hl))), r)

-----------------------------------------------------------------------------
(* proofs                                                                  *)
Inst(P, fs, inp, out) ==
  [rid |-> P.r, steps |-> P.steps, ext |-> P.ext, width |-> Len(fs.v), samples |-> P.samples,
   g |-> P.g, fs |-> FsOf(fs), inp |-> Elems(P.r, inp), out |-> Elems(P.r, out)]
LastOf(wit) == [wit EXCEPT !.v = V([j \in 1..Len(wit.v) |-> wit.v[j].v[Len(wit.v[j].v)]])]
GoodRoot(R, g, n) == RPow(R, g, n) = ROne(R) /\ RPow(R, g, n \div 2) # ROne(R)
SVerdict(P, fs, inp, out) ==
  LET R == Rings[P.r] C == Inst(P, fs, inp, out)
  IN IF P.malformed THEN FALSE
     ELSE IF ~Assert(GoodRoot(R, P.g, Prec(C)) /\ StarkOracle(R, C, P.prf), "oracle: stark") THEN FALSE
     ELSE StarkAccepts(R, P.prf.bytes, C, P.prf)
ProveJ(P, fs, wit, inp, r) ==
  LET R == Rings[P.r]
  IN IF ValidTrace(R, FsOf(fs), Cols(P.r, wit), Elems(P.r, inp))
     THEN [ok |-> Same(Bv(TRUE), r) /\ P.has /\ SVerdict(P, fs, inp, LastOf(wit)), v |-> Norm(r)]
     ELSE F(Exc, r)

FVerdict(P, g) ==
  LET R == Rings[P.r]
  IN IF P.malformed THEN FALSE
     ELSE IF ~Assert(FriOracleOk(R, P.prf.fri, g.v, P.m, <<P.e, P.samples>>), "oracle: fri") THEN FALSE
     ELSE FriAccepts(R, P.prf.bytes, P.prf.fri, P.prf.root, g.v, P.m, <<P.e, P.samples>>)
FProveJ(P, f, g, r) ==
  IF Len(f.v) <= P.m THEN [ok |-> Same(Bv(TRUE), r) /\ P.has /\ FVerdict(P, g), v |-> Norm(r)]
  ELSE IF ~P.has THEN [ok |-> FALSE, v |-> Norm(r)]
  ELSE F(Bv(FVerdict(P, g)), r)

JudgeProto(op, A, P, r) ==
  CASE op = "commit" -> CommitJ(A[1], r)
    [] op = "verifyb" -> VerifyBJ(A[1], A[2], A[3], A[4], P.asint, r)
    [] op = "joint" -> JointJ(A[1], r)
    [] op = "unpack" -> F(UnpackV(A[1], P.k), r)
    [] op = "compb" -> CompressJ(A[1], DecodeBranches, r)
    [] op = "compf" -> CompressJ(A[1], DecodeFri, r)
    [] op = "indices" -> IndicesJ(A[1], P, r)
    [] op = "mimc" -> MimcJ(A[1], A[2], P.steps, r)
    [] op = "cycle" -> F(ElemList(A[1].r, CycleOf(Rings[A[1].r], A[1].v)), r)
    [] op = "xis" -> F(Lv(V([i \in 1..P.n |-> Mv(P.r, P.n, MVar(Rings[P.r], P.n, i))])), r)
    [] op = "pow2" -> F(Bv(IsPow2(A[1])), r)
    [] op = "trace" -> TraceJ(P.r, A[1], P.steps, A[2], r)
    [] op = "air" -> AirJ(P.r, A[1], P.steps, A[2], r)
    [] op = "circuit" -> CircuitJ(P.r, A[2], A[3], r)
    [] op = "mcall" -> F(E(A[1].r, MEval(Rings[A[1].r], A[1].v, Elems(A[1].r, A[2]))), r)
    [] op = "newm" -> F(Mv(P.r, P.n, AsMulti(P.r, P.n, A[1])), r)
    [] op = "newp" -> F(Pl(P.r, AsPoly(P.r, A[1])), r)
    [] op = "newe" -> F(E(P.r, AsElem(P.r, A[1])), r)
    [] op = "list" -> F(Lv(A), r)
    [] op = "pick" -> F(A[1].v[P.i + 1], r)
    [] op = "ctrace" -> TracePolysJ(P.r, A[1], A[2], r)
    [] op = "cconstraint" -> F(ConstraintsV(P.r, FsOf(A[1]), PolysOf(A[2]), A[3].v), r)
    [] op = "cremainder" -> RemainderJ(P.r, A[1], P.steps, A[2].v, r)
    [] op = "cboundary" -> BoundaryJ(P.r, A[1], A[2], A[3], A[4].v, r)
    [] op = "ks" -> KsJ(A[1], P.num, P.h, r)
    [] op = "cjoint" -> JointPJ(P.r, A[1], A[2], A[3], A[4], A[5], P, r)
    [] op = "prove" -> ProveJ(P, A[1], A[2], A[3], r)
    [] op = "sverify" -> F(Bv(SVerdict(P, A[1], A[2], A[3])), r)
    [] op = "fprove" -> FProveJ(P, A[1], A[2], r)
    [] op = "fverify" -> F(Bv(FVerdict(P, A[1])), r)
    [] op = "crash" -> [ok |-> FALSE, v |-> None]

=============================================================================

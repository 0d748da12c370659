-------------------------------- MODULE Vals -------------------------------
(***************************************************************************)
(* Tagged values, as the harness records them and as the specification     *)
(* computes them.                                                          *)
(*   [t |-> "e", r |-> ring id, v |-> element]                             *)
(*   [t |-> "p", r |-> ring id, v |-> coefficient sequence]                *)
(*   [t |-> "m", r |-> ring id, n |-> variables, v |-> exponents -> coeff] *)
(*       (recorded as a sequence of <<exponents, coefficient>> pairs)      *)
(*   [t |-> "pm", ...]  polynomial whose coefficients are multivariate     *)
(*   [t |-> "q", p |-> prime, v |-> <<num, den>>]  fraction modulo p       *)
(*   [t |-> "F", r |-> ring id, v |-> <<significand, exponent, zero, sign>>]*)
(*   [t |-> "c", v |-> description of a class built by the library]        *)
(*   "i" integer, "I" big integer (sign, limbs), "b" boolean, "y" bytes,   *)
(*   "s" string, "l" list, "none", "exc" (raised an exception),            *)
(*   "bad" (the harness could not make sense of the result)                *)
(***************************************************************************)
EXTENDS Alg, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Header == Trace[1]
Rings == Header.rings

E(r, v) == [t |-> "e", r |-> r, v |-> v]
Pl(r, v) == [t |-> "p", r |-> r, v |-> v]
Mv(r, n, v) == [t |-> "m", r |-> r, n |-> n, v |-> v]
Bv(b) == [t |-> "b", v |-> b]
Iv(i) == [t |-> "i", v |-> i]
Lv(s) == [t |-> "l", v |-> s]
Yv(s) == [t |-> "y", v |-> s]
Exc == [t |-> "exc", v |-> ""]
None == [t |-> "none"]

(* recorded value -> specification value                                   *)
RECURSIVE Norm(_)
Norm(x) ==
  CASE x.t = "m" -> [x EXCEPT !.v = MFromPairs(x.v)]
    [] x.t = "pm" -> [x EXCEPT !.v = V([i \in 1..Len(x.v) |-> MFromPairs(x.v[i])])]
    [] x.t = "l" -> [x EXCEPT !.v = V([i \in 1..Len(x.v) |-> Norm(x.v[i])])]
    [] OTHER -> x

(* specification value x agrees with recorded value y; never fails to      *)
(* evaluate, whatever the code returned                                    *)
RECURSIVE Same(_, _)
Same(x, y) ==
  /\ x.t = y.t
  /\ CASE x.t \in {"e", "p", "F"} -> x.r = y.r /\ x.v = y.v
       [] x.t = "m" -> x.r = y.r /\ x.n = y.n /\ x.v = MFromPairs(y.v)
       [] x.t = "pm" -> /\ x.r = y.r /\ x.n = y.n /\ Len(x.v) = Len(y.v)
                        /\ \A i \in 1..Len(x.v) : x.v[i] = MFromPairs(y.v[i])
       [] x.t = "l" -> Len(x.v) = Len(y.v) /\ \A i \in 1..Len(x.v) : Same(x.v[i], y.v[i])
       [] x.t = "q" -> x.p = y.p /\ x.v = y.v
       [] x.t \in {"exc", "none"} -> TRUE
       [] x.t = "bad" -> FALSE
       [] x.t = "I" -> x.neg = y.neg /\ x.v = y.v
       [] x.t = "f" -> x.neg = y.neg /\ x.n = y.n /\ x.d = y.d
       [] OTHER -> x.v = y.v

-----------------------------------------------------------------------------
(* signed integers of any size                                             *)
IsInt(x) == x.t \in {"i", "I"}
SgnNeg(x) == IF x.t = "i" THEN x.v < 0 ELSE x.neg
Mag(x) == IF x.t = "I" THEN x.v ELSE FromNat(IF x.v < 0 THEN -x.v ELSE x.v)
MkInt(neg, mag0) == LET mag == Trim(mag0) IN [neg |-> (neg /\ Len(mag) > 0), mag |-> mag]
SI(x) == MkInt(SgnNeg(x), Mag(x))
SMulB(a, b) == MkInt(a.neg # b.neg, BMul(a.mag, b.mag))
SAddB(a, b) == IF a.neg = b.neg THEN MkInt(a.neg, BAdd(a.mag, b.mag))
               ELSE IF BCmp(a.mag, b.mag) >= 0 THEN MkInt(a.neg, BSub(PadTo(a.mag, Len(b.mag)), b.mag))
               ELSE MkInt(b.neg, BSub(PadTo(b.mag, Len(a.mag)), a.mag))
BDividesB(d, a) == IF Len(d) = 0 THEN Len(a) = 0 ELSE Trim(BModT(a, d)) = <<>>

(* bits of a natural number, most significant first                        *)
ByteBits(x) == V([i \in 1..8 |-> (x \div (2 ^ (8 - i))) % 2])
BitsOf(mag) == FoldLeft(LAMBDA acc, d : acc \o ByteBits(d), <<>>, RevSeq(mag))

(* residue of a (big) integer in a ring                                    *)
NatIn(R, mag) == CASE R.k = "zp" -> BytesMod(RevSeq(mag), R.p)
                   [] R.k = "gf" -> V([i \in 1..R.m |-> IF i = 1 THEN BytesMod(RevSeq(mag), R.p) ELSE 0])
                   [] R.k = "big" -> BModT(PadTo(mag, Len(R.p)), R.p)
IntIn(R, x) == IF x.t = "i" THEN RInt(R, x.v)
               ELSE IF x.neg THEN RNeg(R, NatIn(R, x.v)) ELSE NatIn(R, x.v)

-----------------------------------------------------------------------------
(* coercion between compatible types                                       *)
Rank(x) == CASE x.t \in {"i", "I"} -> 0
             [] x.t = "e" -> IF Rings[x.r].k = "gf" THEN 3 ELSE 1
             [] x.t = "p" -> 2
             [] x.t = "m" -> 4
BaseOf(R) == [k |-> "zp", p |-> R.p]

AsElemZ(p, x) == IF IsInt(x) THEN IntIn([k |-> "zp", p |-> p], x) ELSE x.v
(* x as an element of the ring with id r                                   *)
AsElem(r, x) ==
  LET R == Rings[r]
  IN CASE IsInt(x) -> IntIn(R, x)
       [] x.t = "e" -> IF x.r = r THEN x.v
                       ELSE RInt(R, x.v)                       \* base field into extension
       [] x.t = "p" -> GfReduce(R, x.v)                        \* polynomial over the base field
       [] x.t = "y" -> IF R.k = "gf"                           \* 32 bytes per coefficient
                       THEN GfReduce(R, V([i \in 1..(Len(x.v) \div 32) |->
                              BytesMod(SubSeq(x.v, 32 * i - 31, 32 * i), R.p)]))
                       ELSE RBytes(R, x.v)
       [] x.t = "l" -> GfReduce(R, V([i \in 1..Len(x.v) |-> AsElemZ(R.p, x.v[i])]))
AsPoly(r, x) ==
  LET R == Rings[r]
  IN CASE x.t = "p" -> x.v
       [] x.t = "l" -> PStrip(R, V([i \in 1..Len(x.v) |-> AsElem(r, x.v[i])]))
       [] x.t = "y" -> PStrip(R, V([i \in 1..(Len(x.v) \div 32) |->
                              AsElem(r, Yv(SubSeq(x.v, 32 * i - 31, 32 * i)))]))
       [] OTHER -> PConst(R, AsElem(r, x))
AsMulti(r, n, x) ==
  LET R == Rings[r]
  IN CASE x.t = "m" -> x.v
       [] x.t = "l" ->     \* list of <<exponents, coefficient>>
            MClean(R, MFromPairs(V([i \in 1..Len(x.v) |->
               << V([j \in 1..Len(x.v[i].v[1].v) |-> x.v[i].v[1].v[j].v]), AsElem(r, x.v[i].v[2]) >>])))
       [] OTHER -> MConst(R, n, AsElem(r, x))
Elems(r, x) == V([i \in 1..Len(x.v) |-> AsElem(r, x.v[i])])
ElemList(r, s) == Lv(V([i \in 1..Len(s) |-> E(r, s[i])]))
IntList(x) == V([i \in 1..Len(x.v) |-> x.v[i].v])

=============================================================================

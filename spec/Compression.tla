----------------------------- MODULE Compression ----------------------------
(***************************************************************************)
(* Proof compression.  A compressed list is a list of byte strings; an     *)
(* entry of two bytes stands for the entry at that position (big-endian).  *)
(* Values carry the tags of Vals.tla: [t |-> "l", v |-> sequence] and      *)
(* [t |-> "y", v |-> bytes].                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC
LOCAL V(e) == TLCEval(e)
LOCAL To(a, b) == V([i \in 1..(IF b < a THEN 0 ELSE b - a + 1) |-> a + i - 1])
CL(s) == [t |-> "l", v |-> s]
CY(s) == [t |-> "y", v |-> s]

MBranch == <<45, 45, 45, 45>>      \* "----"
MPlus == <<43, 43, 43, 43>>
MEq == <<61, 61, 61, 61>>
MSlash == <<47, 47, 47, 47>>

Obj(c, i) == IF Len(c[i].v) = 2 THEN c[c[i].v[1] * 256 + c[i].v[2] + 1].v ELSE c[i].v
RefsOk(c) == \A i \in 1..Len(c) : c[i].t = "y" /\ (Len(c[i].v) = 2 => c[i].v[1] * 256 + c[i].v[2] + 1 < i)
DecodeBranches(c) ==
  LET o == V([i \in 1..Len(c) |-> Obj(c, i)])
      marks == V(<<0>> \o SelectSeq(To(1, Len(c)), LAMBDA i : o[i] = MBranch))
      part(from, to) == CL(V([j \in 1..(to - from - 1) |-> CY(o[from + j])]))
      whole == V([k \in 1..(Len(marks) - 1) |-> part(marks[k], marks[k + 1])])
      end == marks[Len(marks)]
  IN IF end = Len(c) THEN CL(whole) ELSE CL(Append(whole, part(end, Len(c) + 1)))
(* acc: [done |-> components, root, ys |-> yproofs, yp |-> branches, br,    *)
(*       fin |-> final values, mode]                                       *)
FriDec(c) ==
  FoldLeft(LAMBDA a, i :
             LET o == Obj(c, i)
                 flush == IF a.mode = "start" THEN a.done ELSE Append(a.done, CL(<<CY(a.root), CL(a.ys)>>))
             IN IF a.mode = "fin" THEN [a EXCEPT !.fin = Append(a.fin, CY(o))]
                ELSE IF a.mode = "root" THEN [a EXCEPT !.root = o, !.mode = "in"]
                ELSE IF o = MBranch THEN [a EXCEPT !.done = flush, !.ys = <<>>, !.yp = <<>>, !.br = <<>>, !.mode = "root"]
                ELSE IF o = MSlash THEN [a EXCEPT !.done = flush, !.mode = "fin"]
                ELSE IF o = MEq THEN [a EXCEPT !.ys = Append(a.ys, CL(a.yp)), !.yp = <<>>]
                ELSE IF o = MPlus THEN [a EXCEPT !.yp = Append(a.yp, CL(a.br)), !.br = <<>>]
                ELSE [a EXCEPT !.br = Append(a.br, CY(o))],
           [done |-> <<>>, root |-> <<>>, ys |-> <<>>, yp |-> <<>>, br |-> <<>>, fin |-> <<>>, mode |-> "start"], To(1, Len(c)))
DecodeFri(c) == LET a == FriDec(c) IN CL(Append(a.done, CL(a.fin)))
BinLen(c) == FoldLeft(LAMBDA n, x : n + Len(x.v) + (IF Len(x.v) = 32 THEN 1 ELSE 0), 0, c)

(* what an encoder is given, object by object                              *)
Cat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
MapS(f(_), s) == V([i \in 1..Len(s) |-> f(s[i])])
Strings(l) == MapS(LAMBDA x : x.v, l.v)
ObjsBranches(bs) == Cat(MapS(LAMBDA b : Strings(b) \o <<MBranch>>, bs.v))
ObjsFri(prf) ==
  LET k == Len(prf.v)
      comp(c) == <<MBranch, c.v[1].v>> \o Cat(MapS(LAMBDA y : Cat(MapS(LAMBDA b : Strings(b) \o <<MPlus>>, y.v)) \o <<MEq>>, c.v[2].v))
  IN Cat(MapS(comp, SubSeq(prf.v, 1, k - 1))) \o <<MSlash>> \o Strings(prf.v[k])
=============================================================================

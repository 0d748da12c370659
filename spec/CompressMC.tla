----------------------------- MODULE CompressMC -----------------------------
(***************************************************************************)
(* The compressor as a machine: it is handed the objects of a proof one by *)
(* one, writes each new object out and replaces a repeated one by the      *)
(* position of its first occurrence.                                       *)
(*   Format  "branches" or "fri"                                           *)
(*   Variant "ok"      as implemented                                      *)
(*           "two"     the proof may contain strings of two bytes          *)
(*           "marker"  the proof may contain a string that is a separator  *)
(*           "wrap"    positions are written modulo a small capacity       *)
(*           "last"    the table keeps the latest occurrence, which may    *)
(*                     itself be a reference                               *)
(* The last four fail, as they must.                                       *)
(***************************************************************************)
EXTENDS Compression
CONSTANTS Format, Variant, Size
VARIABLES x, todo, out, tab
V(e) == TLCEval(e)
vars == <<x, todo, out, tab>>
Y1 == CY(<<7>>)
Y2 == CY(<<7, 7, 7>>)
Strs == CASE Variant = "two" -> {Y2, CY(<<0, 0>>)} [] Variant = "marker" -> {Y2, CY(MBranch)} [] OTHER -> {Y1, Y2}
UpTo(S, n) == UNION { { V([i \in 1..k |-> f[i]]) : f \in [1..k -> S] } : k \in 0..n }
LUpTo(S, n) == { CL(s) : s \in UpTo(S, n) }
Branches == LUpTo(LUpTo(Strs, 2), 3)
(* final list kept short; two components only when both are small          *)
YP(b, y) == LUpTo(LUpTo(LUpTo(Strs, b), y), y)
Comps(b, y) == { CL(<<r, yp>>) : r \in Strs, yp \in YP(b, y) }
Fin == LUpTo(Strs, 2)
Fris == { CL(<<f>>) : f \in Fin } \cup { CL(<<c, f>>) : c \in Comps(1, 1 + Size), f \in Fin }
        \cup { CL(<<c, d, f>>) : c, d \in Comps(1, 1), f \in Fin }
Objs(p) == IF Format = "fri" THEN ObjsFri(p) ELSE ObjsBranches(p)
Decode(c) == IF Format = "fri" THEN DecodeFri(c) ELSE DecodeBranches(c)
Cap == IF Variant = "wrap" THEN 2 ELSE 65536
Ptr(k) == CY(<<(k % Cap) \div 256, (k % Cap) % 256>>)

Init == /\ x \in (IF Format = "fri" THEN Fris ELSE Branches)
        /\ todo = Objs(x) /\ out = <<>> /\ tab = <<>>
Emit == /\ todo # <<>>
        /\ LET o == Head(todo)
               seen == { i \in 1..Len(tab) : tab[i][1] = o }
           IN IF seen # {} THEN /\ out' = Append(out, Ptr(tab[CHOOSE i \in seen : TRUE][2]))
                                /\ tab' = IF Variant = "last" THEN [tab EXCEPT ![CHOOSE i \in seen : TRUE][2] = Len(out)] ELSE tab
              ELSE /\ out' = Append(out, CY(o))
                   /\ tab' = Append(tab, <<o, Len(out)>>)
        /\ todo' = Tail(todo) /\ UNCHANGED x
Next == Emit
(* references point at earlier, written-out strings                        *)
Refs == /\ RefsOk(out)
        /\ \A i \in 1..Len(out) : Len(out[i].v) = 2 => Len(out[out[i].v[1] * 256 + out[i].v[2] + 1].v) # 2
(* nothing is written twice                                                *)
Once == \A i, j \in 1..Len(out) : i < j /\ Len(out[i].v) # 2 => out[i] # out[j]
Back == todo = <<>> => Decode(out) = x
Shorter == BinLen(out) <= BinLen(V([i \in 1..Len(Objs(x)) |-> CY(Objs(x)[i])])) + Len(out)
=============================================================================

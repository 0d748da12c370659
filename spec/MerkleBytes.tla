---------------------------- MODULE MerkleBytes ----------------------------
(***************************************************************************)
(* What a Merkle opening binds when hashing works on byte strings.  A byte *)
(* string is a sequence of tokens; a digest is two tokens, so that it can  *)
(* be cut in the middle; the hash function is injective.  An adversary     *)
(* offers any list of strings cut out of what the tree hashed.             *)
(*   "bare"      node = H(left || right), leaves paired as they are        *)
(*   "hashed"    leaves are hashed before they are paired                  *)
(*   "prefixed"  leaves and inner nodes are hashed with different prefixes *)
(* Depth: the verifier insists on the depth of the tree.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Scheme, Depth, Big
VARIABLES x, y
V(e) == TLCEval(e)
Md(a, b) == a % b

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN "" ELSE Head(s) \o (IF Len(s) > 1 THEN "." ELSE "") \o Flat(Tail(s))
H(s) == LET n == "(" \o Flat(s) \o ")" IN <<n \o "l", n \o "r">>
Leaf(l) == CASE Scheme = "bare" -> l [] Scheme = "hashed" -> H(l) [] Scheme = "prefixed" -> H(<<"0">> \o l)
Node(a, b) == IF Scheme = "prefixed" THEN H(<<"1">> \o a \o b) ELSE H(a \o b)
Pre(a, b) == IF Scheme = "prefixed" THEN <<"1">> \o a \o b ELSE a \o b
PreLeaf(l) == IF Scheme = "prefixed" THEN <<"0">> \o l ELSE l

Slot(i, n) == (i \div (n \div 4)) + 4 * Md(i, n \div 4)
(* with four leaves the slots are the positions                            *)
Root(L) == Node(Node(Leaf(L[1]), Leaf(L[2])), Node(Leaf(L[3]), Leaf(L[4])))
Honest(L, i) ==
  LET sib == IF Md(i, 2) = 0 THEN L[i + 2] ELSE L[i]
      top == IF i < 2 THEN Node(Leaf(L[3]), Leaf(L[4])) ELSE Node(Leaf(L[1]), Leaf(L[2]))
  IN <<L[i + 1], sib, top>>
RECURSIVE Walk(_, _, _)
Walk(v, k, sibs) ==
  IF sibs = <<>> THEN v
  ELSE Walk(V(IF Md(k, 2) = 1 THEN Node(Head(sibs), v) ELSE Node(v, Head(sibs))), k \div 2, Tail(sibs))
(* the verifier: number of leaves from the length of the proof             *)
Accepts(root, i, pf) ==
  LET n == 2 ^ (Len(pf) - 1)
      k == n + (IF n < 4 THEN i ELSE Slot(i, n))
  IN /\ Len(pf) > 1 /\ i < n /\ (Depth => Len(pf) = 3)
     /\ Walk(Leaf(pf[1]), k, V(<<Leaf(pf[2])>> \o SubSeq(pf, 3, Len(pf)))) = root

Preimages(L) ==
  { PreLeaf(L[j]) : j \in 1..4 } \cup
  { Pre(Leaf(L[1]), Leaf(L[2])), Pre(Leaf(L[3]), Leaf(L[4])),
    Pre(Node(Leaf(L[1]), Leaf(L[2])), Node(Leaf(L[3]), Leaf(L[4]))) }
Cuts(s) == { SubSeq(s, a, b) : a \in 1..(Len(s) + 1), b \in 0..Len(s) }
Pieces(L) == V(UNION { Cuts(s) : s \in Preimages(L) } \cup {<<"z">>})
TopPieces(L) == V(Cuts(Pre(Node(Leaf(L[1]), Leaf(L[2])), Node(Leaf(L[3]), Leaf(L[4])))) \cup {<<"a">>})
Lists == {<<<<"a">>, <<"a", "b">>, <<>>, <<"b">>>>} \cup
         (IF Big THEN {<<<<"a">>, <<"b">>, <<"c">>, <<"d">>>>, <<<<"a">>, <<"a">>, <<"b">>, <<"a">>>>} ELSE {})
Seqs(S, n) == { V([i \in 1..n |-> f[i]]) : f \in [1..n -> S] }

Init == /\ x \in UNION { { <<L, i, v, Root(L)>> : i \in 0..3, v \in Pieces(L) } : L \in Lists }
        /\ y = <<"pick", <<>>>>
Next == /\ y[1] = "pick"
        /\ y' \in { <<"ok", s>> : s \in Seqs(Pieces(x[1]), 1) \cup { <<p, q>> : p \in Pieces(x[1]), q \in TopPieces(x[1]) } }
        /\ UNCHANGED x
Complete == y[1] = "pick" => \A i \in 0..3 : Accepts(x[4], i, Honest(x[1], i))
Binding == y[1] = "ok" =>
             LET pf == <<x[3]>> \o y[2]
             IN Accepts(x[4], x[2], pf) => pf = Honest(x[1], x[2])
=============================================================================

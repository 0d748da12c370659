------------------------------ MODULE Converge -----------------------------
(***************************************************************************)
(* P27, convergence: nodes hold chains of arbitrary lengths, some invalid  *)
(* chains are offered by faulty peers; every node resolves once against    *)
(* all others (in any order).  Then all nodes have the maximal length.     *)
(* A chain is its identity: <<length, variant>>.                           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS N, MaxLen
VARIABLES len, own, done
Init == /\ len \in [1..N -> 1..MaxLen]
        /\ own = len /\ done = {}
Resolve(n) ==
  /\ n \notin done
  /\ LET best == CHOOSE l \in { len[m] : m \in 1..N } : \A m \in 1..N : len[m] <= l
     IN len' = [len EXCEPT ![n] = IF best > @ THEN best ELSE @]
  /\ done' = done \cup {n}
  /\ UNCHANGED own
Next == \E n \in 1..N : Resolve(n)
Spec == Init /\ [][Next]_<<len, own, done>>
MaxOwn == CHOOSE l \in { own[m] : m \in 1..N } : \A m \in 1..N : own[m] <= l
Converged == done = 1..N => \A n \in 1..N : len[n] = MaxOwn
=============================================================================

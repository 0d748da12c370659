----------------------------- MODULE Blockchain ----------------------------
(***************************************************************************)
(* Blockchain nodes serving HTTP requests in threads.                      *)
(*                                                                         *)
(* Every request is a thread that takes several steps:                     *)
(*   mine:    search a proof on the tip; enter the critical section; if    *)
(*            the tip moved, search again; otherwise add the reward and    *)
(*            forge the block                                              *)
(*   tx:      enter, append the transaction, announce the next index       *)
(*   resolve: enter, note the own length, ask every peer for its chain,    *)
(*            adopt the longest valid one                                  *)
(* A block is [idx, prev, on, txs, miner, id]: prev is the id of the block *)
(* whose hash it carries, on the id of the block its proof was searched    *)
(* on.  Ids stand for hashes (collision free).  Liars are peers that       *)
(* answer with corrupted chains.                                           *)
(*                                                                         *)
(* UseLock, CheckTip and TrustLength describe the implementation; with the *)
(* wrong setting the invariants below fail (checked by the harness, so     *)
(* that they are known not to be vacuous).                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Nodes, Threads, MaxOps, MaxLen, UseLock, CheckTip, TrustLength, Liars, Kinds, Emit

VARIABLES
  chain,      \* node -> sequence of blocks
  pool,       \* node -> transactions waiting for the next block
  lock,       \* node -> thread holding it, or 0
  th,         \* thread -> what it is doing
  cnt,        \* requests begun, ids used
  acc,        \* ghost: accepted transactions, with announcement
  mined,      \* ghost: node -> blocks it mined, in order
  repl,       \* ghost: node -> how often its chain was replaced
  bad,        \* ghost: description of a violated obligation, or ""
  log         \* the schedule, for replay on the implementation

vars == <<chain, pool, lock, th, cnt, acc, mined, repl, bad, log>>

Last(s) == s[Len(s)]
Genesis(n) == [idx |-> 1, prev |-> 0, on |-> 0, txs |-> <<>>, miner |-> 0, id |-> n]
Idle == [k |-> "idle", n |-> 0, pc |-> "", tip |-> 0, todo |-> {}, best |-> <<>>, max |-> 0, tx |-> 0]
Reward(n) == 1000 + n

Init ==
  /\ chain = [n \in Nodes |-> <<Genesis(n)>>]
  /\ pool = [n \in Nodes |-> <<>>]
  /\ lock = [n \in Nodes |-> 0]
  /\ th = [t \in Threads |-> Idle]
  /\ cnt = [ops |-> 0, ids |-> Cardinality(Nodes)]
  /\ acc = {}
  /\ mined = [n \in Nodes |-> <<>>]
  /\ repl = [n \in Nodes |-> 0]
  /\ bad = ""
  /\ log = <<>>

Step(t, n, what) == log' = IF Emit THEN Append(log, [t |-> t, n |-> n, w |-> what]) ELSE log

(* validity as the consensus rule sees it                                  *)
Valid(c) == \A i \in 2..Len(c) : c[i].prev = c[i - 1].id /\ c[i].on = c[i - 1].id
(* a chain a liar may send: some later block does not fit                  *)
Corrupt(c, i) == [c EXCEPT ![i].prev = 0]
Answers(m) == IF m \in Liars THEN { Corrupt(chain[m], i) : i \in 2..Len(chain[m]) } \cup {chain[m]} ELSE {chain[m]}

-----------------------------------------------------------------------------
Begin(t, n, k) ==
  /\ th[t].k = "idle" /\ cnt.ops < MaxOps
  /\ k = "mine" => Len(chain[n]) < MaxLen
  /\ cnt' = [cnt EXCEPT !.ops = @ + 1]
  /\ th' = [th EXCEPT ![t] = [Idle EXCEPT !.k = k, !.n = n, !.pc = IF k = "mine" THEN "search" ELSE "enter", !.tx = cnt.ops + 1]]
  /\ Step(t, n, k)
  /\ UNCHANGED <<chain, pool, lock, acc, mined, repl, bad>>

Search(t) ==
  LET n == th[t].n IN
  /\ th[t].pc = "search"
  /\ th' = [th EXCEPT ![t].pc = "enter", ![t].tip = Last(chain[n]).id]
  /\ Step(t, n, "search")
  /\ UNCHANGED <<chain, pool, lock, cnt, acc, mined, repl, bad>>

(* asking for the lock is a step of its own, so that schedules contain     *)
(* threads that wait                                                       *)
Enter(t) ==
  LET n == th[t].n IN
  /\ th[t].pc = "enter"
  /\ th' = [th EXCEPT ![t].pc = "wait"]
  /\ Step(t, n, "enter")
  /\ UNCHANGED <<chain, pool, lock, cnt, acc, mined, repl, bad>>

Acquire(t) ==
  LET n == th[t].n IN
  /\ th[t].pc = "wait"
  /\ UseLock => lock[n] = 0
  /\ IF th[t].k = "mine" /\ CheckTip /\ Last(chain[n]).id # th[t].tip
     THEN /\ th' = [th EXCEPT ![t].pc = "search"]
          /\ UNCHANGED lock
     ELSE /\ th' = [th EXCEPT ![t].pc = CASE th[t].k = "mine" -> "reward" [] th[t].k = "tx" -> "append" [] OTHER -> "fetch",
                              ![t].todo = Nodes \ {n}, ![t].max = Len(chain[n])]
          /\ lock' = IF UseLock THEN [lock EXCEPT ![n] = t] ELSE lock
  /\ Step(t, n, "acquire")
  /\ UNCHANGED <<chain, pool, cnt, acc, mined, repl, bad>>

Finish(t, n) ==
  /\ th' = [th EXCEPT ![t] = Idle]
  /\ lock' = [lock EXCEPT ![n] = IF @ = t THEN 0 ELSE @]

DoTx(t) ==
  LET n == th[t].n IN
  /\ th[t].pc = "append"
  /\ pool' = [pool EXCEPT ![n] = Append(@, th[t].tx)]
  /\ acc' = acc \cup {[tx |-> th[t].tx, n |-> n, idx |-> Last(chain[n]).idx + 1, at |-> repl[n]]}
  /\ Finish(t, n)
  /\ Step(t, n, "append")
  /\ UNCHANGED <<chain, cnt, mined, repl, bad>>

DoReward(t) ==
  LET n == th[t].n IN
  /\ th[t].pc = "reward"
  /\ pool' = [pool EXCEPT ![n] = Append(@, Reward(n))]
  /\ th' = [th EXCEPT ![t].pc = "forge"]
  /\ Step(t, n, "reward")
  /\ UNCHANGED <<chain, lock, cnt, acc, mined, repl, bad>>

Forge(t) ==
  LET n == th[t].n
      b == [idx |-> Len(chain[n]) + 1, prev |-> Last(chain[n]).id, on |-> th[t].tip, txs |-> pool[n], miner |-> n, id |-> cnt.ids + 1]
  IN
  /\ th[t].pc = "forge"
  /\ chain' = [chain EXCEPT ![n] = Append(@, b)]
  /\ pool' = [pool EXCEPT ![n] = <<>>]
  /\ cnt' = [cnt EXCEPT !.ids = @ + 1]
  /\ mined' = [mined EXCEPT ![n] = Append(@, b)]
  /\ bad' = IF \E a \in acc : /\ a.n = n /\ \E i \in 1..Len(b.txs) : b.txs[i] = a.tx
                              /\ a.at = repl[n] /\ a.idx # b.idx
            THEN "not the announced block" ELSE bad
  /\ Finish(t, n)
  /\ Step(t, n, "forge")
  /\ UNCHANGED <<acc, repl>>

Fetch(t) ==
  LET n == th[t].n IN
  /\ th[t].pc = "fetch" /\ th[t].todo # {}
  /\ \E m \in th[t].todo : \E c \in Answers(m) : \E claimed \in (IF m \in Liars THEN {Len(c), Len(c) + 5} ELSE {Len(c)}) :
       LET len == IF TrustLength THEN claimed ELSE Len(c)
           take == len > th[t].max /\ Valid(c)
       IN th' = [th EXCEPT ![t].todo = @ \ {m},
                           ![t].best = IF take THEN c ELSE @,
                           ![t].max = IF take THEN len ELSE @]
  /\ Step(t, n, "fetch")
  /\ UNCHANGED <<chain, pool, lock, cnt, acc, mined, repl, bad>>

Adopt(t) ==
  LET n == th[t].n  c == th[t].best IN
  /\ th[t].pc = "fetch" /\ th[t].todo = {}
  /\ IF c = <<>> THEN UNCHANGED <<chain, repl, bad>>
     ELSE /\ chain' = [chain EXCEPT ![n] = c]
          /\ repl' = [repl EXCEPT ![n] = @ + 1]
          /\ bad' = IF Len(c) <= Len(chain[n]) THEN "adopted a chain that is not longer"
                    ELSE IF ~Valid(c) THEN "adopted an invalid chain" ELSE bad
  /\ Finish(t, n)
  /\ Step(t, n, "adopt")
  /\ UNCHANGED <<pool, cnt, acc, mined>>

Next == \E t \in Threads :
  \/ \E n \in Nodes, k \in Kinds : Begin(t, n, k)
  \/ Search(t) \/ Enter(t) \/ Acquire(t) \/ DoTx(t) \/ DoReward(t) \/ Forge(t) \/ Fetch(t) \/ Adopt(t)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* P26 *)
Count(x, s) == Cardinality({ i \in 1..Len(s) : s[i] = x })
RECURSIVE CountIn(_, _)
CountIn(x, bs) == IF bs = <<>> THEN 0 ELSE Count(x, Head(bs).txs) + CountIn(x, Tail(bs))

ChainWellFormed ==
  \A n \in Nodes :
    /\ chain[n][1].prev = 0 /\ chain[n][1].idx = 1
    /\ \A i \in 1..Len(chain[n]) : chain[n][i].idx = i
    /\ Valid(chain[n])
TransactionsOnce ==
  \A a \in acc : Count(a.tx, pool[a.n]) + CountIn(a.tx, mined[a.n]) = 1
  (* and in no block of any chain twice *)
  /\ \A n \in Nodes : CountIn(a.tx, chain[n]) <= 1
OneReward ==
  \A n \in Nodes : \A i \in 1..Len(mined[n]) :
    Cardinality({ j \in 1..Len(mined[n][i].txs) : mined[n][i].txs[j] > 1000 }) = 1 /\ Count(Reward(n), mined[n][i].txs) = 1
NothingBad == bad = ""

(* P27: chains never shrink; and see Converged below                       *)
NeverShorter == [][\A n \in Nodes : Len(chain'[n]) >= Len(chain[n])]_vars
OnlyGrowsOrLonger == [][\A n \in Nodes :
   chain'[n] # chain[n] => Len(chain'[n]) > Len(chain[n])]_vars

(* schedules for the implementation: printed when the behaviour is long    *)
(* enough or everything is done                                            *)
Quiescent == cnt.ops = MaxOps /\ \A t \in Threads : th[t].k = "idle"
EmitLog == (Emit /\ Quiescent) => PrintT("SCHED|" \o ToJson(log))
=============================================================================

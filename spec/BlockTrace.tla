----------------------------- MODULE BlockTrace ----------------------------
(***************************************************************************)
(* Histories recorded from real nodes, judged against the sequential       *)
(* meaning of the requests (every request takes effect at one instant      *)
(* between its start and its answer).                                      *)
(*                                                                         *)
(* Every session starts with an "init" event that carries the table of all *)
(* blocks that occur (content, hash computed independently by the harness, *)
(* and which pairs of blocks carry a valid proof of work).  A "window"     *)
(* event holds all requests of one node that overlapped, with their        *)
(* answers, and the node's chain (block ids) when the node was quiet       *)
(* again.  The specification keeps, per node, its chain and the set of     *)
(* possible transaction pools.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, tab, env
vars == <<l, tab, env>>

V(x) == TLCEval(x)
Say(ev, clause) == PrintT("BAD|" \o ToString(ev.s) \o "|" \o ToString(ev.i) \o "|" \o ev.op \o "|" \o clause)

Blk(b) == tab.blocks[b]
LastB(c) == c[Len(c)]
Fits(a, b) == Blk(b).prev = Blk(a).hash /\ <<a, b>> \in tab.pow
ValidIds(c) == /\ \A i \in 1..Len(c) : Blk(c[i]).idx = i
               /\ \A i \in 2..Len(c) : Fits(c[i - 1], c[i])

SetOf(s) == { s[i] : i \in 1..Len(s) }
(* remove position i *)
Cut(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Rewards(txs) == { i \in 1..Len(txs) : txs[i].s = "\"0\"" }

(* the block holds exactly one reward, for this node, and the waiting      *)
(* transactions in order                                                   *)
Pays(txs, pool, rcpt) ==
  /\ Cardinality(Rewards(txs)) = 1
  /\ \A i \in Rewards(txs) : /\ txs[i].a = "1"
                             /\ (rcpt = "" \/ txs[i].r = rcpt)
                             /\ Cut(txs, i) = pool

(* successors of state x = [chain, pool] under request o                   *)
Mine(x, o, rcpt) ==
  IF /\ o.status = 200
     /\ o.idx = Len(x.chain) + 1
     /\ Pays(o.txs, x.pool, rcpt)
     /\ (LastB(x.chain) = 0 \/ o.prev = Blk(LastB(x.chain)).hash)
     /\ o.vid # 0 => /\ Blk(o.vid).idx = o.idx /\ Blk(o.vid).prev = o.prev /\ Blk(o.vid).txs = o.txs
                     /\ LastB(x.chain) # 0 => Fits(LastB(x.chain), o.vid)
  THEN {[chain |-> Append(x.chain, o.vid), pool |-> <<>>]}
  ELSE {}
Tx(x, o) == IF o.status = 201 /\ o.idx = Len(x.chain) + 1 THEN {[x EXCEPT !.pool = Append(@, o.tx)]} ELSE {}
Candidates(x, o) == { o.fetch[i].chain : i \in { j \in 1..Len(o.fetch) : o.fetch[j].ok } }
Resolve(x, o, single) ==
  LET longer == { c \in Candidates(x, o) : Len(c) > Len(x.chain) /\ ValidIds(c) }
      best == { c \in longer : \A d \in longer : Len(d) <= Len(c) }
  IN IF o.status # 200 THEN {}
     ELSE IF longer = {} THEN (IF ~o.rep /\ (single => o.chain = x.chain) THEN {x} ELSE {})
     ELSE { [x EXCEPT !.chain = c] : c \in { c \in best : o.rep /\ (single => o.chain = c) } }
Apply(x, o, rcpt, single) ==
  CASE o.k = "mine" -> Mine(x, o, rcpt)
    [] o.k = "tx" -> Tx(x, o)
    [] o.k = "badtx" -> IF o.status = 400 THEN {x} ELSE {}
    [] o.k = "resolve" -> Resolve(x, o, single)
    [] o.k = "reg" -> IF o.status = 201 THEN {x} ELSE {}
    [] o.k = "badreg" -> IF o.status = 400 THEN {x} ELSE {}

RECURSIVE Lin(_, _, _, _)
Lin(S, rem, ops, rcpt) ==
  IF rem = {} \/ S = {} THEN S
  ELSE UNION { Lin(UNION { Apply(x, ops[j], rcpt, Len(ops) = 1) : x \in S }, rem \ {j}, ops, rcpt) :
               j \in { k \in rem : \A m \in rem : ~(ops[m].e < ops[k].b) } }

(* registered peers: the resolve asked every one of them, and nobody else  *)
Registered(ops) == UNION { SetOf(ops[j].peers) : j \in { k \in 1..Len(ops) : ops[k].k = "reg" } }
AskedOk(e, ops) ==
  \A j \in 1..Len(ops) : ops[j].k = "resolve" =>
    LET asked == { ops[j].fetch[i].peer : i \in 1..Len(ops[j].fetch) }
    IN e.peers \subseteq asked /\ asked \subseteq (e.peers \cup Registered(ops))
RegOk(e, ops) ==
  Len(ops) = 1 /\ ops[1].k = "reg" => SetOf(ops[1].total) = e.peers \cup Registered(ops)

RewardRcpt(ops, old) ==
  LET S == UNION { { ops[j].txs[i].r : i \in Rewards(ops[j].txs) } : j \in { k \in 1..Len(ops) : ops[k].k = "mine" } }
  IN IF old # "" \/ S = {} THEN old ELSE CHOOSE r \in S : TRUE
Agree(ops) == \A j, k \in { k \in 1..Len(ops) : ops[k].k = "mine" } :
  { ops[j].txs[i].r : i \in Rewards(ops[j].txs) } = { ops[k].txs[i].r : i \in Rewards(ops[k].txs) }

GenesisOk(c) == /\ Len(c) = 1
                /\ Blk(c[1]).idx = 1 /\ Blk(c[1]).txs = <<>>

TraceInit == l = 2 /\ tab = <<>> /\ env = <<>>

Window(ev) ==
  LET e == env[ev.n]
      S == V({ x \in Lin({ [chain |-> e.chain, pool |-> p] : p \in e.pools }, 1..Len(ev.ops), ev.ops, e.rcpt) : x.chain = ev.post })
      rc == RewardRcpt(ev.ops, e.rcpt)
      others == { env[m].rcpt : m \in (1..Len(env)) \ {ev.n} } \ {""}
      linok == S # {}
      ok == linok /\ AskedOk(e, ev.ops) /\ RegOk(e, ev.ops) /\ Agree(ev.ops) /\ (rc = "" \/ rc \notin others) /\ ev.lenok
  IN /\ IF e.lost \/ linok THEN TRUE ELSE Say(ev, "no sequential order of the requests explains the answers and the chain")
     /\ IF AskedOk(e, ev.ops) THEN TRUE ELSE Say(ev, "resolve did not ask exactly the registered peers")
     /\ IF RegOk(e, ev.ops) THEN TRUE ELSE Say(ev, "registered peers")
     /\ IF Agree(ev.ops) /\ (rc = "" \/ rc \notin others) THEN TRUE ELSE Say(ev, "reward recipient")
     /\ IF ev.lenok THEN TRUE ELSE Say(ev, "reported length")
     /\ IF e.lost \/ ValidIds(ev.post) THEN TRUE ELSE Say(ev, "the chain is not valid")
     /\ env' = [env EXCEPT ![ev.n] =
           [chain |-> ev.post, pools |-> IF linok THEN { x.pool : x \in S } ELSE {<<>>},
            peers |-> e.peers \cup Registered(ev.ops), rcpt |-> rc, lost |-> e.lost \/ ~linok]]
     /\ UNCHANGED tab

Step ==
  /\ l <= Len(Trace)
  /\ LET ev == Trace[l]
     IN CASE ev.op = "init" ->
               /\ tab' = [blocks |-> ev.blocks, pow |-> { <<ev.pow[i][1], ev.pow[i][2]>> : i \in 1..Len(ev.pow) }]
               /\ env' = V([n \in 1..Len(ev.chains) |->
                    [chain |-> ev.chains[n], pools |-> {<<>>}, peers |-> {}, rcpt |-> "", lost |-> FALSE]])
          [] ev.op = "genesis" ->
               /\ IF \A n \in 1..Len(env) : GenesisOk(env[n].chain) THEN TRUE ELSE Say(ev, "genesis block")
               /\ UNCHANGED <<tab, env>>
          [] ev.op = "window" -> Window(ev)
          [] ev.op = "valid" ->          \* direct use of the chain validity test
               /\ IF ev.res = ValidIds(ev.chain) THEN TRUE ELSE Say(ev, "validity")
               /\ UNCHANGED <<tab, env>>
          [] ev.op = "converge" ->
               /\ IF \A n \in 1..Len(env) : env[n].lost \/ \A m \in 1..Len(env) : Len(env[n].chain) = Len(env[m].chain) THEN TRUE
                  ELSE Say(ev, "chains of different lengths after everybody resolved")
               /\ UNCHANGED <<tab, env>>
          [] OTHER -> Say(ev, ev.op) /\ UNCHANGED <<tab, env>>
  /\ l' = l + 1

Fin == /\ l = Len(Trace) + 1
       /\ PrintT("DONE|" \o ToString(Len(Trace) - 1))
       /\ l' = l + 1
       /\ UNCHANGED <<tab, env>>
TraceNext == Step \/ Fin
=============================================================================

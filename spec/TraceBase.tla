----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* The register machine every recorded execution is replayed on.           *)
(* State: env, the abstract value of every live register; l, the position  *)
(* in the trace.  One transition per recorded call.  The transition        *)
(* computes the specified outcome from the abstract argument values (never *)
(* from recorded results), compares it with the recorded result, and       *)
(* requires every other live register to keep its value (no call may       *)
(* change an operand or an earlier result).                                *)
(* Verdicts are total: a disagreement is printed and the state is          *)
(* resynchronised with the recording so that the rest of the trace is      *)
(* still judged.                                                           *)
(* Judge(op, A, P, r) is supplied by the specification of each domain:     *)
(*   [ok |-> BOOLEAN, v |-> abstract value of the result]                  *)
(***************************************************************************)
EXTENDS Vals

VARIABLES l, env
vars == <<l, env>>

RECURSIVE Deref(_, _)
Deref(x, m) == CASE x.t = "ref" -> m[x.v]
                 [] x.t = "l" -> [x EXCEPT !.v = V([i \in 1..Len(x.v) |-> Deref(x.v[i], m)])]
                 [] OTHER -> x

Say(ev, clause) ==
  PrintT("BAD|" \o ToString(ev.s) \o "|" \o ToString(ev.i) \o "|" \o ev.op \o "|" \o clause)

TraceInit == l = 2 /\ env = <<>>

Outcome(Judge(_, _, _, _), ev) ==
  IF ev.op = "init" THEN [ok |-> TRUE, v |-> None]
  ELSE Judge(ev.op, V([i \in 1..Len(ev.a) |-> Deref(ev.a[i], env)]), ev.P, ev.r)

Step(Judge(_, _, _, _)) ==
  /\ l <= Len(Trace)
  /\ LET ev == Trace[l]
         o == V(Outcome(Judge, ev))
         live == DOMAIN ev.regs
         exp(k) == IF k = ev.d THEN o.v ELSE env[k]
         moved == { k \in live : ev.op # "init" /\ k # ev.d /\ ~Same(env[k], ev.regs[k]) }
         dstbad == ev.d \in live /\ o.ok /\ ~Same(o.v, ev.regs[ev.d])
         \* lists passed to the call: their values before and after it
         kept == IF "watch" \in DOMAIN ev THEN \A i \in 1..Len(ev.watch) : Same(Norm(ev.watch[i][1]), ev.watch[i][2]) ELSE TRUE
         good == o.ok /\ moved = {} /\ ~dstbad
     IN /\ (IF o.ok THEN TRUE ELSE Say(ev, "result"))
        /\ (IF kept THEN TRUE ELSE Say(ev, "argument changed"))
        /\ (IF moved = {} THEN TRUE ELSE Say(ev, "operand changed"))
        /\ (IF ~dstbad THEN TRUE ELSE Say(ev, "stored result"))
        /\ env' = IF good /\ ev.op # "init" THEN V([k \in live |-> exp(k)])
                  ELSE V([k \in live |-> Norm(ev.regs[k])])
  /\ l' = l + 1

Finish ==
  /\ l = Len(Trace) + 1
  /\ PrintT("DONE|" \o ToString(Len(Trace) - 1))
  /\ l' = l + 1
  /\ UNCHANGED env

(* Domain specifications define  TraceNext == TraceStep(Judge)             *)
TraceStep(Judge(_, _, _, _)) == Step(Judge) \/ Finish
=============================================================================

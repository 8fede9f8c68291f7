---------------------------- MODULE TransportGen ----------------------------
(***************************************************************************)
(* Random behaviours of the abstract transport, printed as plans: the      *)
(* conformance driver executes each plan on the real transports.           *)
(***************************************************************************)
EXTENDS Transport, TLC, Json, IOUtils

N == atoi(IOEnv.GEN_N)
NETS == atoi(IOEnv.GEN_NETS)
STEPS == atoi(IOEnv.GEN_STEPS)
OUT == atoi(IOEnv.GEN_OUT)      \* bound on outstanding frames per link (queues are bounded)
CLASSES == atoi(IOEnv.GEN_CLASSES)

VARIABLES plan, phase
Init == /\ InitWith([backend |-> "any", n |-> N, nets |-> NETS, maxf |-> [x \in 1..N |-> CLASSES]])
        /\ plan = <<>> /\ phase = "run"

Outstanding(l) == Len(sent[l]) - nxt[l]
Op(o) == plan' = Append(plan, o)
DoSend(l, len) ==
  /\ phase = "run" /\ Outstanding(l) < OUT
  /\ sent' = [sent EXCEPT ![l] = Append(@, [len |-> len, h |-> 0, c |-> Len(plan), st |-> "ok", ts |-> 0])]
  /\ UNCHANGED <<cfg, nxt, stat, lim, guar, dead, stall, flushed, snapF, sb, rb, rpend, closed>>
  /\ Op([o |-> "send", p |-> l[1], q |-> l[2], k |-> l[3], x |-> len])
DoRecv(l) ==
  /\ HasNext(l)
  /\ Deliver(l, 0, NextIdx(l))
  /\ Op([o |-> "recv", p |-> l[2], q |-> l[1], k |-> l[3], x |-> 0])
DoLocal(p, k, o) ==
  /\ phase = "run" /\ UNCHANGED tvars /\ Op([o |-> o, p |-> p, q |-> 0, k |-> k, x |-> 0])
Next ==
  \/ /\ \/ \E l \in Links : \E len \in 0..CLASSES-1 : DoSend(l, len)
        \/ \E l \in Links, rep \in 1..CLASSES : DoRecv(l)
        \/ \E p \in P, k \in K : \E o \in {"flush", "stats", "diff"} : DoLocal(p, k, o)
     /\ phase' = IF Len(plan) >= STEPS THEN "drain" ELSE phase
  \/ /\ phase = "drain" /\ \A l \in Links : ~ HasNext(l)
     /\ phase' = "done" /\ UNCHANGED <<tvars, plan>>
     /\ PrintT(<<"PLAN", ToJson(plan)>>)
Spec == Init /\ [][Next]_<<tvars, plan, phase>>
=============================================================================

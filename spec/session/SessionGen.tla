------------------------------ MODULE SessionGen ------------------------------
(* Random behaviours of Session with the observation expected after each   *)
(* step; the driver plays the peers and compares.                          *)
EXTENDS Session, TLC, Json, IOUtils
STEPS == atoi(IOEnv.GEN_STEPS)
MODE == IOEnv.GEN_MODE          \* "giveup" | "idle"
VARIABLES plan, done
Init == \E m \in 0..1 : InitWith(m, 3) /\ plan = <<>> /\ done = FALSE
Rec(o, s, q) == plan' = Append(plan, [o |-> o, s |-> s, q |-> q, exp |-> Obs'])
Slow == Cardinality({j \in 1..Len(plan) : plan[j].o \in {"giveup", "idle"}})
Step ==
  \/ \E s \in 1..3 : Len(calls) < 5 /\ Start(s) /\ Rec("start", s, 0)
  \/ \E s \in 1..3, q \in Higher, rep \in 1..2 : Len(conns) < 11 /\ Dial(s, q) /\ Rec("dial", s, q)
  \/ \E rep \in 1..3 : MODE = "giveup" /\ Slow < 3 /\ GiveUp /\ Rec("giveup", 0, 0)
  \/ MODE = "idle" /\ Slow < 2 /\ conns # <<>> /\ Idle /\ Rec("idle", 0, 0)
  \/ \E w \in 1..Len(calls) : DropNet(w) /\ Rec("drop", w, 0)
  \/ Higher # {} /\ RandomElement(1..4) = 1 /\ Garbage /\ Rec("garbage", RandomElement(0..2), 0)
Next == \/ ~ done /\ Len(plan) < STEPS /\ Step /\ done' = FALSE
        \/ ~ done /\ Len(plan) >= STEPS /\ done' = TRUE /\ UNCHANGED <<svars, plan>>
           /\ PrintT(<<"PLAN", ToJson([me |-> me, n |-> n, mode |-> MODE, steps |-> plan])>>)
Spec == Init /\ [][Next]_<<svars, plan, done>>
=============================================================================

------------------------------ MODULE SessionMC ------------------------------
EXTENDS Session
CONSTANTS NParties, Sids, MaxConns, MaxCalls
Init == \E m \in 0..NParties-1 : InitWith(m, NParties)
Next == \/ \E s \in Sids : Len(calls) < MaxCalls /\ Start(s)
        \/ \E s \in Sids : \E q \in Higher : Len(conns) < MaxConns /\ Dial(s, q)
        \/ GiveUp \/ Idle
        \/ \E w \in 1..Len(calls) : DropNet(w)
Spec == Init /\ [][Next]_svars
(* once closed, always closed; once given, only closed afterwards          *)
Mono == [][\A j \in 1..Len(conns) :
            /\ conns[j].st = "closed" => conns'[j].st = "closed"
            /\ conns[j].st = "given" => conns'[j].st \in {"given", "closed"}]_svars
=============================================================================

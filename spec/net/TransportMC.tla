----------------------------- MODULE TransportMC -----------------------------
(* Exhaustive exploration of the abstract transport: every interleaving of  *)
(* sends, receives, flushes, cuts, drops and crashes for a few frames.      *)
EXTENDS Transport, TLC
CONSTANTS NP, NN, MaxSend, Senders, Lens
Back == "tcp"
VARIABLES got,    \* link -> Seq(frame number) delivered, history
          reach   \* link -> frames that had been flushed/dropped when the link went down
mcvars == <<tvars, got, reach>>

Init == /\ InitWith([backend |-> Back, n |-> NP, nets |-> NN, maxf |-> [x \in 1..NP |-> 1], timeout |-> -1])
        /\ got = [l \in LinksOf(NP, NN) |-> <<>>]
        /\ reach = [l \in LinksOf(NP, NN) |-> 0]

Fr(l, len) == [len |-> len, h |-> Len(sent[l]), c |-> Len(sent[l]) + 1, st |-> "pend", ts |-> 0]
Open(p, k) == <<p, k>> \notin closed
NoPend(l) == \A j \in 1..Len(sent[l]) : sent[l][j].st # "pend"

Send(l, len) == l[1] \in Senders /\ Open(l[1], l[3]) /\ NoPend(l) /\ Len(sent[l]) < MaxSend /\ SendCall(l, Fr(l, len)) /\ UNCHANGED <<got, reach>>
SendDone(l) == /\ ~ NoPend(l)
               /\ LET c == Len(sent[l])
                      f == sent[l][c] IN
                  \/ ~ MustRefuse(l, f.len) /\ SendRet(l, f.c, TRUE, 0)
                  \/ (MustRefuse(l, f.len) \/ MayFail(l)) /\ nxt[l] < c /\ SendRet(l, f.c, FALSE, 0)
               /\ UNCHANGED <<got, reach>>
Recv(l) == /\ Open(l[2], l[3]) /\ HasNext(l) /\ ~ dead[l]
           /\ LET f == sent[l][NextIdx(l)] IN
              /\ f.len <= MaxF(l[2]) /\ f.len <= MaxF(l[1])
              /\ Deliver(l, f.len, NextIdx(l))
              /\ got' = [got EXCEPT ![l] = Append(@, f.c)]
           /\ UNCHANGED reach
RecvError(l) == Open(l[2], l[3]) /\ ~ dead[l] /\ MayErr(l) /\ RecvFail(l) /\ UNCHANGED <<got, reach>>
FlushAll(p, k) == /\ Open(p, k) /\ \A q \in P \ {p} : NoPend(<<p, q, k>>)
                  /\ \A q \in P \ {p} : stat[<<p, q, k>>] = "up"
                  /\ \E q \in P \ {p} : flushed[<<p, q, k>>] < Len(sent[<<p, q, k>>])
                  /\ flushed' = [l \in Links |-> IF l[1] = p /\ l[3] = k THEN Len(sent[l]) ELSE flushed[l]]
                  /\ UNCHANGED <<cfg, sent, nxt, stat, lim, guar, dead, stall, snapF, sb, rb, rpend, closed>>
                  /\ UNCHANGED <<got, reach>>
DoDrop(p, k) == /\ Open(p, k) /\ \A q \in P \ {p} : NoPend(<<p, q, k>>) /\ Drop(p, k)
                /\ reach' = [l \in Links |-> IF l[1] = p /\ l[3] = k /\ stat[l] = "up" THEN Len(sent[l]) ELSE reach[l]]
                /\ UNCHANGED got
DoCrash(p) == /\ \E k \in K : Open(p, k) /\ Crash(p)
              /\ reach' = [l \in Links |-> IF l[1] = p /\ stat[l] = "up" THEN flushed[l] ELSE reach[l]]
              /\ UNCHANGED got
DoCut(p, q) == /\ \A k \in K : stat[<<p, q, k>>] = "up"
               /\ \E e \in 0..MaxSend :
                    LET keep == [l \in Links |-> Max2(nxt[l], Min2(e, Len(sent[l])))] IN Cut(p, q, keep, keep)
               /\ UNCHANGED <<got, reach>>

Next == \/ \E l \in Links : \/ \E len \in Lens : Send(l, len)
                            \/ SendDone(l) \/ Recv(l) \/ RecvError(l)
        \/ \E p \in P, k \in K : FlushAll(p, k) \/ DoDrop(p, k)
        \/ \E p \in P : DoCrash(p) \/ \E q \in P \ {p} : DoCut(p, q)
Spec == Init /\ [][Next]_mcvars

(* N01: what is delivered on a link is a prefix of what was sent on it,    *)
(* skipping refused frames; no frame twice, none reordered.                *)
Prefix == \A l \in Links :
  /\ \A j \in 1..Len(got[l]) : sent[l][got[l][j]].st # "fail"
  /\ \A j \in 1..Len(got[l])-1 : got[l][j] < got[l][j+1]
  /\ \A j \in 1..Len(got[l]) : \A m \in 1..Len(sent[l]) :
       (m < got[l][j] /\ sent[l][m].st # "fail") => \E x \in 1..Len(got[l]) : got[l][x] = m
(* N02 *)
Sizes == \A l \in Links : \A j \in 1..Len(got[l]) : sent[l][got[l][j]].len <= 1
(* N03: after the terminal error nothing more, and the error only after    *)
(* every complete frame.                                                   *)
DeadDone == \A l \in Links : dead[l] /\ lim[l] # -1 /\ guar[l] > 0 =>
   \/ \E j \in 1..Len(sent[l]) : sent[l][j].len > 1
   \/ Len(got[l]) >= Cardinality({j \in 1..guar[l] : sent[l][j].st # "fail"})
(* N04: what was flushed before a crash, or sent before a drop, can still  *)
(* be delivered.                                                           *)
Reachable == \A l \in Links : stat[l] = "cut" => (lim[l] = -1 \/ lim[l] >= guar[l]) /\ guar[l] >= reach[l]
(* N05 *)
Bytes == \A l \in Links :
  /\ rb[l] = Len(SelectSeq(got[l], LAMBDA c : sent[l][c].len = 1))
  /\ sb[l] = Cardinality({j \in 1..Len(sent[l]) : sent[l][j].st = "ok" /\ sent[l][j].len = 1})
Inv == TypeOK /\ NoInvented /\ StatsSound /\ Prefix /\ Sizes /\ DeadDone /\ Reachable /\ Bytes
=============================================================================

---------------------------- MODULE TransportImpl ----------------------------
(***************************************************************************)
(* The pipeline behind one link of the queue based backends: send pushes   *)
(* into a bounded queue, a writer drains it byte by byte onto the wire     *)
(* (header bytes, then payload bytes), a reader parses frames from the     *)
(* wire into a bounded receive queue, recv pops that queue.  The wire can  *)
(* be cut after any byte.  A flush is acknowledged by the writer once      *)
(* everything queued before it is on the wire.  Refines Transport.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Cap, Hdr, MaxSend, MaxLen, Limit,
  AckAbort   \* a waiting flush notices that the writer has stopped

VARIABLES
  calls,    \* frames handed to send, in order: [len, c, st]
  sendq,    \* bounded queue of frame numbers and "flush" marks
  wpos,     \* bytes of the head frame already on the wire
  wire,     \* bytes in flight: <<frame number, byte index>>
  buf,      \* bytes the reader has taken and not yet parsed
  recvq,    \* bounded queue of frames / "err"
  rdone,    \* reader has stopped
  wdone,    \* writer has stopped
  got,      \* frames returned by recv
  errs,     \* recv returned the terminal error
  cut,      \* the wire is cut
  acked,    \* number of calls covered by acknowledged flushes
  fl        \* the flush call: "idle" | "wait" | "ok" | "err"
ivars == <<calls, sendq, wpos, wire, buf, recvq, rdone, wdone, got, errs, cut, acked, fl>>

Init == /\ calls = <<>> /\ sendq = <<>> /\ wpos = 0 /\ wire = <<>> /\ buf = <<>> /\ recvq = <<>>
        /\ rdone = FALSE /\ wdone = FALSE /\ got = <<>> /\ errs = FALSE /\ cut = FALSE /\ acked = 0 /\ fl = "idle"

Size(c) == Hdr + calls[c].len
Send(len) ==
  /\ Len(calls) < MaxSend
  /\ IF len > Limit
     THEN /\ calls' = Append(calls, [len |-> len, c |-> Len(calls) + 1, st |-> "fail"])
          /\ UNCHANGED sendq
     ELSE \/ /\ ~ wdone /\ Len(sendq) < Cap
             /\ calls' = Append(calls, [len |-> len, c |-> Len(calls) + 1, st |-> "ok"])
             /\ sendq' = Append(sendq, Len(calls) + 1)
          \/ /\ wdone
             /\ calls' = Append(calls, [len |-> len, c |-> Len(calls) + 1, st |-> "fail"])
             /\ UNCHANGED sendq
  /\ UNCHANGED <<wpos, wire, buf, recvq, rdone, wdone, got, errs, cut, acked, fl>>
FlushReq ==
  /\ fl # "wait"
  /\ IF wdone THEN fl' = "err" /\ UNCHANGED sendq
     ELSE /\ Len(sendq) < Cap
          /\ sendq' = Append(sendq, -Len(calls))     \* a flush mark covering all calls so far
          /\ fl' = "wait"
  /\ UNCHANGED <<calls, wpos, wire, buf, recvq, rdone, wdone, got, errs, cut, acked>>
(* the writer stopped with the flush mark still queued                     *)
FlushAbort ==
  /\ AckAbort /\ wdone /\ fl = "wait" /\ fl' = "err"
  /\ UNCHANGED <<calls, sendq, wpos, wire, buf, recvq, rdone, wdone, got, errs, cut, acked>>
WriteByte ==
  /\ ~ wdone /\ sendq # <<>> /\ Head(sendq) > 0
  /\ LET c == Head(sendq) IN
     /\ wire' = IF cut THEN wire ELSE Append(wire, <<c, wpos + 1>>)
     /\ IF wpos + 1 = Size(c)
        THEN wpos' = 0 /\ sendq' = Tail(sendq)
        ELSE wpos' = wpos + 1 /\ UNCHANGED sendq
  /\ UNCHANGED <<calls, buf, recvq, rdone, wdone, got, errs, cut, acked, fl>>
WriterFlush ==
  /\ ~ wdone /\ sendq # <<>> /\ Head(sendq) <= 0
  /\ \/ /\ acked' = IF cut THEN acked ELSE -Head(sendq)
        /\ fl' = "ok" /\ sendq' = Tail(sendq) /\ UNCHANGED wdone
     \/ /\ cut /\ fl' = "err" /\ wdone' = TRUE /\ sendq' = Tail(sendq) /\ UNCHANGED acked
  /\ UNCHANGED <<calls, wpos, wire, buf, recvq, rdone, got, errs, cut>>
WriterFails ==
  /\ cut /\ ~ wdone /\ wdone' = TRUE
  /\ UNCHANGED <<calls, sendq, wpos, wire, buf, recvq, rdone, got, errs, cut, acked, fl>>
CutWire ==
  /\ ~ cut /\ cut' = TRUE
  /\ UNCHANGED <<calls, sendq, wpos, wire, buf, recvq, rdone, wdone, got, errs, acked, fl>>
Read ==
  /\ ~ rdone /\ wire # <<>>
  /\ \E m \in 1..Len(wire) :       \* a read takes any number of available bytes
       /\ buf' = buf \o SubSeq(wire, 1, m)
       /\ wire' = SubSeq(wire, m + 1, Len(wire))
  /\ UNCHANGED <<calls, sendq, wpos, recvq, rdone, wdone, got, errs, cut, acked, fl>>
Parse ==
  /\ ~ rdone /\ Len(buf) >= Hdr /\ Len(buf) >= Size(buf[1][1]) /\ Len(recvq) < Cap
  /\ recvq' = Append(recvq, buf[1][1])
  /\ buf' = SubSeq(buf, Size(buf[1][1]) + 1, Len(buf))
  /\ UNCHANGED <<calls, sendq, wpos, wire, rdone, wdone, got, errs, cut, acked, fl>>
Eof ==
  /\ ~ rdone /\ cut /\ wire = <<>>
  /\ ~ (Len(buf) >= Hdr /\ Len(buf) >= Size(buf[1][1]))
  /\ Len(recvq) < Cap
  /\ recvq' = Append(recvq, 0) /\ rdone' = TRUE
  /\ UNCHANGED <<calls, sendq, wpos, wire, buf, wdone, got, errs, cut, acked, fl>>
Recv ==
  /\ recvq # <<>>
  /\ recvq' = Tail(recvq)
  /\ IF Head(recvq) = 0 THEN errs' = TRUE /\ UNCHANGED got
     ELSE got' = Append(got, Head(recvq)) /\ UNCHANGED errs
  /\ UNCHANGED <<calls, sendq, wpos, wire, buf, rdone, wdone, cut, acked, fl>>
Next == \/ \E len \in 0..MaxLen : Send(len)
        \/ FlushReq \/ FlushAbort \/ WriteByte \/ WriterFlush \/ WriterFails \/ CutWire \/ Read \/ Parse \/ Eof \/ Recv
Live == /\ WF_ivars(WriteByte) /\ WF_ivars(WriterFlush) /\ WF_ivars(Read) /\ WF_ivars(Parse)
        /\ WF_ivars(FlushAbort) /\ WF_ivars(Eof) /\ WF_ivars(Recv)
Spec == Init /\ [][Next]_ivars /\ Live

OkCalls == SelectSeq([j \in 1..Len(calls) |-> j], LAMBDA j : calls[j].st = "ok")
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
(* what is (or will be) delivered: prefix of the accepted frames           *)
Pipeline == IsPrefixOf(got \o SelectSeq(recvq, LAMBDA c : c > 0), OkCalls)
Complete(c) == \E j \in 1..Len(wire \o buf) : (wire \o buf)[j] = <<c, Size(c)>>
               /\ \E m \in 1..Len(wire \o buf) : (wire \o buf)[m] = <<c, 1>>
(* an acknowledged flush means: already received, or completely on the way *)
FlushSafe == \A c \in 1..acked : calls[c].st = "ok" =>
   \/ Complete(c) \/ \E j \in 1..Len(recvq) : recvq[j] = c
   \/ \E j \in 1..Len(got) : got[j] = c
ErrLast == errs => wire = <<>> /\ SelectSeq(recvq, LAMBDA c : c > 0) = <<>>
(* liveness: flushed frames are delivered; a cut is reported               *)
Delivered == \A c \in 1..MaxSend : (acked >= c /\ Len(calls) >= c) ~>
   (\E j \in 1..Len(got) : got[j] = c) \/ (Len(calls) >= c /\ calls[c].st = "fail")
CutSeen == cut ~> errs
(* a flush always returns, also when the writer dies under it              *)
FlushReturns == (fl = "wait") ~> (fl # "wait")
FlushErrOnlyIfCut == fl = "err" => cut
Inv == Pipeline /\ FlushSafe /\ ErrLast /\ FlushErrOnlyIfCut
AllArrive == [](~ cut) => \A c \in 1..MaxSend :
   (Len(calls) >= c /\ calls[c].st = "ok") ~> (\E j \in 1..Len(got) : got[j] = c)

(* ------------------------------------------------------------ refinement *)
(* The link as the abstract machine sees it.                               *)
Abs == INSTANCE LinkSpec WITH
   acc <- OkCalls, rcv <- got, down <- cut, ended <- errs,
   safe <- acked
AbsSpec == Abs!Spec
=============================================================================

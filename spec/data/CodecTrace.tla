----------------------------- MODULE CodecTrace -----------------------------
(* Encodings, decodings and messages of the real code against Codec.         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, viol, cov, width
vars == <<i, viol, cov, width>>
Ev == Trace[i]
Init == i = 1 /\ viol = <<>> /\ cov = [x \in {} |-> 0] /\ width = [x \in {} |-> 0]
F(cond, what) == IF cond THEN <<>> ELSE <<[at |-> i, job |-> Ev.job, what |-> what]>>
Name == Ev.ty \o " (" \o (IF Ev.ev = "codec" THEN Ev.fmt ELSE IF Ev.ev = "frame" THEN Ev.f ELSE Ev.what) \o ")"
Fixed == Ev.ev = "codec" /\ Ev.fix >= 0
Key == IF Ev.ev = "codec" THEN Ev.ty \o "/" \o Ev.fmt \o "/" \o ToString(Ev.fix) ELSE Ev.ty \o "/" \o Ev.f \o "/" \o ToString(Ev.n)
Cod == F(Ev.ok, Name \o ": encoding or decoding fails")
    \o F(~ Ev.ok \/ Ev.back = Ev.x, Name \o ": decodes to another value")
    \o F(~ Ev.ok \/ Ev.size < 0 \/ Ev.size = Ev.len, Name \o ": the announced size is wrong")
    \o F(~ Fixed \/ ~ Ev.ok \/ Key \notin DOMAIN width \/ width[Key] = Ev.len, Name \o ": the width depends on the value")
    \o F(Ev.accepted = <<>>, Name \o ": a truncated encoding is accepted")
    \o F(Ev.panics = 0, Name \o ": decoding a truncated encoding panics")
Frm == F(Ev.ok, Name \o ": a message is not received")
    \o F(~ Ev.ok \/ Ev.got = Ev.sent, Name \o ": another value is received")
    \o F(\A j \in 1..Len(Ev.lens) : Ev.lens[j] = (IF Key \in DOMAIN width THEN width[Key] ELSE Ev.lens[1]), Name \o ": the length of a message depends on the value")
Bad == F(Ev.accepted = <<>>, Name \o ": a wrong message is not refused: " \o (IF Ev.accepted = <<>> THEN "" ELSE Ev.accepted[1]))
(* a message of a protocol that was replaced by one with an element more or less: whoever reads it must refuse it *)
Read == Ev.altered /\ Ev.read
Cnt == F(~ Read \/ ~ Ev.ok, Name \o ": a message with another number of values is accepted")
    \o F(~ Read \/ Ev.ok \/ ~ Ev.panicked, Name \o ": a message with another number of values causes a panic")
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ viol' = viol \o (CASE Ev.ev = "codec" -> Cod [] Ev.ev = "frame" -> Frm [] Ev.ev = "badframe" -> Bad [] Ev.ev = "count" -> Cnt)
        /\ width' = IF Fixed /\ Ev.ok /\ Key \notin DOMAIN width THEN (Key :> Ev.len) @@ width
                    ELSE IF Ev.ev = "frame" /\ Ev.ok /\ Ev.lens # <<>> /\ Key \notin DOMAIN width THEN (Key :> Ev.lens[1]) @@ width
                    ELSE width
        /\ LET key == Ev.ev \o "." \o Ev.ty \o (IF Ev.ev = "count" THEN "." \o Ev.what \o (IF Read THEN " read" ELSE "") ELSE "") IN cov' = (key :> ((IF key \in DOMAIN cov THEN cov[key] ELSE 0) + 1)) @@ cov
Spec == Init /\ [][Next]_vars
Report == i = Len(Trace) + 1 => PrintT(<<"REPORT", ToJson([viol |-> viol, cov |-> cov, events |-> Len(Trace)])>>)
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================

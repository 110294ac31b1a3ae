---------------------------- MODULE FramesTrace -----------------------------
EXTENDS Frames
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<s, act, prev, tid, l>>
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ s = Init0 /\ act = "" /\ prev = ""
TNext == /\ l <= Len(Traces[tid].trace)
         /\ LET e == Traces[tid].trace[l] IN \E t \in Post(s, e.i, e.o) : s' = t
         /\ l' = l + 1
         /\ (l = Len(Traces[tid].trace) => PrintT(<<"ACC", tid>>))
         /\ UNCHANGED <<act, prev, tid>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

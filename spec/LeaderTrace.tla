----------------------------- MODULE LeaderTrace -----------------------------
EXTENDS Leader
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<s, act, prev, log, tid, l>>
TInit == tid \in 1..Len(Traces) /\ l = 1 /\ s = Init0 /\ act = "" /\ prev = "" /\ log = {}
TNext == /\ l <= Len(Traces[tid].trace)
         /\ LET e == Traces[tid].trace[l] IN
            IF e.i.op = "turns" THEN Turns(s, ToSet(e.i.list)) /\ UNCHANGED s
            ELSE \E r \in Post(s, e.i) : r.o = e.o /\ s' = r.s
         /\ l' = l + 1
         /\ (l = Len(Traces[tid].trace) => PrintT(<<"ACC", tid>>))
         /\ UNCHANGED <<act, prev, log, tid>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

----------------------------- MODULE SharesTrace -----------------------------
(* Is each recorded run of the real code a behaviour of Shares, as far as property Prop looks? *)
EXTENDS Shares

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop   == IOEnv.PROP

VARIABLES tid, l
tvars == <<s, act, prev, tid, l>>

NoDup(q)  == Cardinality(ToSet(q)) = Len(q)
Told(q)   == {<<x[1], x[2], x[3], ToSet(x[4])>> : x \in ToSet(q)}

Match(r, o, b) ==
  /\ ~b.dead
  /\ Prop \in {"C05", "C06", "C07"} => ToSet(b.app) = o.app /\ NoDup(b.app)
  /\ Prop = "C05" => o.maytell \/ (Told(b.vers) = o.vers /\ NoDup(b.vers))
  /\ Prop = "C08" => Told(b.reqs) = o.reqs /\ ToSet(b.anss) = o.anss /\ NoDup(b.anss) /\ NoDup(b.reqs)
  /\ Prop = "C10" => ToSet(b.bl) = r.bl
  /\ Prop = "C12" => b.closed = Closed(r)

TInit == /\ tid \in 1..Len(Traces) /\ l = 1
         /\ s = Init0 /\ act = [i |-> [t |-> "init"], o |-> NoObs] /\ prev = Init0
TNext == /\ l <= Len(Traces[tid].trace)
         /\ LET e == Traces[tid].trace[l] IN
            \E r \in Post(s, e.i) : Match(r.s, r.o, e.o) /\ s' = r.s
         /\ l' = l + 1
         /\ (l = Len(Traces[tid].trace) => PrintT(<<"ACC", tid>>))
         /\ UNCHANGED <<act, prev, tid>>
TSpec == TInit /\ [][TNext]_tvars
Progress == PrintT(<<"AT", tid, l>>)
=============================================================================

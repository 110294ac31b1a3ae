------------------------------ MODULE JoinTrace ------------------------------
(* Is each recorded run of party coordinators a behaviour of Join, as far as property Prop looks?
   Times are in units of 0.1 ms. *)
EXTENDS Join

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop   == IOEnv.PROP

VARIABLES tid, l, ext      \* ext: when each node was called and when it decided; bound for network I/O
tvars == <<s, act, prev, tid, l, ext>>

Tie    == 10
TO     == Cfg.timeout
Prompt == 30000

\* node n as it may be at time t: the deadline has passed or not; [ns, td]
Aged(n, t) ==
  LET ns == s.nodes[n]
      d  == ext.t0[n] + TO
  IN IF ns.st # "wait" \/ t + Tie < d THEN {[ns |-> ns, td |-> ext.td[n]]}
     ELSE IF t > d + Tie THEN {[ns |-> OnDeadline(ns), td |-> d]}
     ELSE {[ns |-> ns, td |-> ext.td[n]], [ns |-> OnDeadline(ns), td |-> d]}

Set(n, ns, t, a) == /\ s' = [s EXCEPT !.nodes[n] = ns]
                    /\ ext' = [ext EXCEPT !.td[n] = IF ns.st = "decided" /\ a.ns.st # "decided" THEN t ELSE a.td]

NoDup(q) == Cardinality(ToSet(q)) = Len(q)
\* what each property looks at
RetOK(n, ns, td, e) ==
  LET r  == [err |-> e.err, list |-> ToSet(e.list)]
      R  == Results(n, ns)
      intime == e.t <= td + Prompt + ext.io
  IN CASE Prop = "C02" ->
            e.err = "" =>
              /\ r \in R /\ NoDup(e.list) /\ e.leader = Leader
              /\ Leader \in Real => ns.party \in {{}, r.list} /\ s.nodes[Leader].party \in {{}, r.list}
       [] Prop = "C03" -> /\ \E q \in R : q.err = e.err
                          /\ intime
       [] Prop = "C04" -> r \in R /\ NoDup(e.list) /\ intime

Follow(e) ==
  CASE e.e = "cfg"  -> /\ ext' = [ext EXCEPT !.io = e.io] /\ UNCHANGED s
    [] e.e = "call" -> /\ s' = [s EXCEPT !.nodes[e.n] = OnCall(@)]
                       /\ ext' = [ext EXCEPT !.t0[e.n] = e.t]
    [] e.e = "req"  -> IF e.to \notin Real THEN UNCHANGED <<s, ext>>
                       ELSE \E a \in Aged(e.to, e.t) : Set(e.to, OnReq(e.to, a.ns, e.from, e.x), e.t, a)
    [] e.e = "resp" -> IF e.to \notin Real THEN UNCHANGED <<s, ext>>
                       ELSE \E a \in Aged(e.to, e.t) :
                              Set(e.to, OnResp(e.to, a.ns, e.from, e.x, [type |-> e.type, list |-> e.list]), e.t, a)
    [] e.e = "sig"  -> \E a \in Aged(e.n, e.t) : Set(e.n, OnSig(a.ns), e.t, a)
    [] e.e = "sent" ->   \* the leader tells somebody the party
         IF Prop # "C02" THEN UNCHANGED <<s, ext>>
         ELSE \E a \in Aged(e.n, e.t) :
                /\ a.ns.st = "decided" /\ e.to \in Parts /\ NoDup(e.list)
                /\ \E r \in Results(e.n, a.ns) :
                     /\ r.list = ToSet(e.list) /\ a.ns.party \in {{}, r.list}
                     /\ (r.err = "") <=> (e.type = "Success")
                     /\ Set(e.n, [a.ns EXCEPT !.party = r.list], e.t, a)
    [] e.e = "ret"  -> \E a \in Aged(e.n, e.t) :
                /\ a.ns.st = "decided"
                /\ RetOK(e.n, a.ns, a.td, e)
                /\ s' = [s EXCEPT !.nodes[e.n] = [a.ns EXCEPT !.st = "ret",
                                    !.party = IF e.n = Leader /\ e.err = "" THEN ToSet(e.list) ELSE @]]
                /\ UNCHANGED ext
    [] OTHER -> FALSE

TInit == /\ tid \in 1..Len(Traces) /\ l = 1
         /\ s = Init0 /\ act = [i |-> [e |-> "init"]] /\ prev = Init0
         /\ ext = [t0 |-> [n \in Real |-> 0], td |-> [n \in Real |-> 0], io |-> 0]
TNext == /\ l <= Len(Traces[tid].trace)
         /\ Follow(Traces[tid].trace[l])
         /\ l' = l + 1
         /\ (l = Len(Traces[tid].trace) => PrintT(<<"ACC", tid>>))
         /\ UNCHANGED <<act, prev, tid>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

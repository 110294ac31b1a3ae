-------------------------------- MODULE Join --------------------------------
(***************************************************************************)
(* Forming the party of a session: leader-led (a leader collects requests  *)
(* and answers with the party) and leaderless (everybody asks everybody).  *)
(*                                                                         *)
(* Properties C02, C03 (leader-led) and C04 (leaderless).                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cfg    == JsonDeserialize(IOEnv.CFG)
Flat   == Cfg.flat                    \* leaderless
Parts  == ToSet(Cfg.parts)            \* listed participants
Outs   == ToSet(Cfg.outs)             \* other peers
Leader == "L"
T      == Cfg.thr                     \* requests the leader needs
Real   == ToSet(Cfg.real)             \* participants that follow the protocol; the others do anything
Sess   == "s"

Members == Parts \ {Leader}

------------------------------------------------------------------------------
(* One node                                                                 *)

Idle == [st |-> "idle", heard |-> {}, late |-> {}, resps |-> {}, why |-> "", party |-> {}]

Role(n) == IF Flat THEN "flat" ELSE IF n = Leader THEN "leader" ELSE "member"

Decide(ns, why) == [ns EXCEPT !.st = "decided", !.why = why]

OnCall(ns) == [Idle EXCEPT !.st = "wait"]

\* a request to join session x has arrived from peer p
OnReq(n, ns, p, x) ==
  IF ns.st \notin {"wait", "decided"} \/ x # Sess \/ p \notin Parts \ {n} \/ Role(n) = "member" THEN ns
  ELSE IF ns.st = "decided" THEN [ns EXCEPT !.late = @ \union {p}]
  ELSE LET h  == ns.heard \union {p}
           n1 == [ns EXCEPT !.heard = h]
       IN IF Role(n) = "leader" /\ Cardinality(h) >= T THEN Decide(n1, "full")
          ELSE IF Role(n) = "flat" /\ h = Parts \ {n} THEN Decide(n1, "full")
          ELSE n1

\* an answer has arrived from peer p: r = [type, list]
OnResp(n, ns, p, x, r) ==
  IF ns.st \notin {"wait", "decided"} \/ x # Sess \/ p # Leader \/ Role(n) # "member" THEN ns
  ELSE LET n1 == [ns EXCEPT !.resps = @ \union {r}]
       IN IF ns.st = "wait" THEN Decide(n1, "answer") ELSE n1

\* the signature is there already
OnSig(ns) == IF ns.st = "wait" /\ ~Flat THEN Decide(ns, "sig") ELSE ns

OnDeadline(ns) == IF ns.st = "wait" THEN Decide(ns, "timeout") ELSE ns

\* what may be reported once the node has decided: [err, list]
OfResp(r) == IF Len(r.list) < T THEN [err |-> "few", list |-> ToSet(r.list)]
             ELSE IF r.type = "Success" THEN [err |-> "", list |-> ToSet(r.list)]
             ELSE [err |-> "timeout", list |-> ToSet(r.list)]

Results(n, ns) ==
  CASE ns.why = "sig" -> {[err |-> "sig", list |-> {}]}
    [] Role(n) = "member" /\ ns.why = "answer" -> {OfResp(r) : r \in ns.resps}
    [] Role(n) = "member" /\ ns.why = "timeout" -> {[err |-> "notready", list |-> {}]} \union {OfResp(r) : r \in ns.resps}
    [] Role(n) = "leader" /\ ns.why = "full" ->
         {[err |-> "", list |-> {n} \union h] : h \in {x \in SUBSET (ns.heard \union ns.late) : Cardinality(x) >= T}}
    [] Role(n) = "leader" /\ ns.why = "timeout" -> {[err |-> "timeout", list |-> {n} \union ns.heard]}
    [] Role(n) = "flat" -> {[err  |-> IF ns.heard \union l = Parts \ {n} THEN "" ELSE "timeout",
                             list |-> {n} \union ns.heard \union l] : l \in SUBSET ns.late}

------------------------------------------------------------------------------
(* The system: messages may be lost, delayed, repeated and overtake         *)

VARIABLES s, act, prev
vars == <<s, act, prev>>

Init0 == [nodes |-> [n \in Real |-> Idle],
          asked |-> {},                                    \* requests on their way: <<from, to>>
          answers |-> {},                                  \* answers of the leader: <<to, [type, list]>>
          res |-> [n \in Real |-> [err |-> "none", list |-> {}]]]

Node(n, ns) == [s.nodes EXCEPT ![n] = ns]

\* inputs: what the environment may do; the leader answers in one go when it has decided
Inputs == ToSet(Cfg.inputs)

Lists == {SetToSeq(x) : x \in SUBSET Parts}

Step(i) ==
  CASE i.e = "call" ->
         /\ i.n \in Real /\ s.nodes[i.n].st \in (IF Cfg.again THEN {"idle", "ret"} ELSE {"idle"})
         /\ s' = [s EXCEPT !.nodes[i.n] = OnCall(@),
                           !.asked = @ \union (IF Flat THEN {<<i.n, m>> : m \in Parts \ {i.n}}
                                               ELSE IF i.n = Leader THEN {} ELSE {<<i.n, Leader>>})]
    [] i.e = "req" ->       \* a request that was sent, or one out of the blue
         /\ i.to \in Real
         /\ IF i.from \in Real THEN <<i.from, i.to>> \in s.asked /\ i.x = Sess ELSE TRUE
         /\ s' = [s EXCEPT !.nodes[i.to] = OnReq(i.to, @, i.from, i.x)]
    [] i.e = "answer" ->    \* the leader fixes the party and tells everybody
         /\ ~Flat /\ Leader \in Real /\ s.nodes[Leader].st = "decided" /\ s.res[Leader].err = "none"
         /\ \E r \in Results(Leader, s.nodes[Leader]) :
              s' = [s EXCEPT !.res[Leader] = r, !.nodes[Leader].party = r.list,
                             !.answers = IF r.err \in {"", "timeout"} THEN
                                @ \union {<<m, [type |-> IF r.err = "" THEN "Success" ELSE "Timeout",
                                                list |-> SetToSeq(r.list)]>> : m \in Members} ELSE @]
    [] i.e = "resp" ->
         /\ i.to \in Real
         /\ \/ i.from = Leader /\ Leader \in Real /\ i.x = Sess
               /\ \E a \in s.answers : a[1] = i.to /\ s' = [s EXCEPT !.nodes[i.to] = OnResp(i.to, @, Leader, Sess, a[2])]
            \/ ~(i.from \in Real)
               /\ s' = [s EXCEPT !.nodes[i.to] = OnResp(i.to, @, i.from, i.x, [type |-> i.type, list |-> i.list])]
    [] i.e = "sig" -> i.n \in Real /\ s.nodes[i.n].st = "wait" /\ s' = [s EXCEPT !.nodes[i.n] = OnSig(@)]
    [] i.e = "deadline" -> i.n \in Real /\ s.nodes[i.n].st = "wait" /\ s' = [s EXCEPT !.nodes[i.n] = OnDeadline(@)]
    [] i.e = "ret" ->
         /\ i.n \in Real /\ s.nodes[i.n].st = "decided"
         /\ IF Role(i.n) = "leader" THEN s.res[i.n].err # "none" /\ s' = [s EXCEPT !.nodes[i.n].st = "ret"]
            ELSE \E r \in Results(i.n, s.nodes[i.n]) : s' = [s EXCEPT !.nodes[i.n].st = "ret", !.res[i.n] = r]

Init == s = Init0 /\ act = [i |-> [e |-> "init"]] /\ prev = Init0
Next == \E i \in Inputs : Step(i) /\ act' = [i |-> i] /\ prev' = s
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* C02: those that succeed agree on a valid party                           *)
Ok(n) == s.nodes[n].st = "ret" /\ s.res[n].err = ""
PC02 == (~Flat /\ Leader \in Real) =>
  /\ \A a, b \in Real : Ok(a) /\ Ok(b) => s.res[a].list = s.res[b].list
  /\ \A a \in Real : Ok(a) => /\ Leader \in s.res[a].list
                              /\ s.res[a].list \subseteq Parts
                              /\ Cardinality(s.res[a].list) >= T + 1
                              /\ \A m \in (s.res[a].list \cap Real) \ {Leader} : <<m, Leader>> \in s.asked
\* C03: outcome follows from what was learned
PC03 == ~Flat => \A n \in Real : s.nodes[n].st = "ret" =>
  /\ s.nodes[n].why = "sig" => s.res[n].err = "sig"
  /\ s.nodes[n].why # "sig" => s.res[n].err # "sig"
  /\ Role(n) = "member" /\ s.nodes[n].resps = {} => s.res[n].err \in {"sig", "notready"}
  /\ Role(n) = "member" /\ s.nodes[n].why = "answer" => s.res[n].err # "notready"
\* C04: success exactly when all were heard
PC04 == Flat => \A n \in Real : s.nodes[n].st = "ret" =>
  /\ (s.res[n].err = "") <=> (s.res[n].list = Parts)
  /\ s.nodes[n].why = "full" => s.res[n].err = ""
  /\ s.res[n].list \subseteq Parts
  /\ \A m \in (s.res[n].list \cap Real) \ {n} : <<m, n>> \in s.asked

Safe == PC02 /\ PC03 /\ PC04
View == s
Checked == Safe' \/ Assert(FALSE, <<"property broken", prev', act', s'>>)
Export == Checked /\ PrintT("EDGE " \o ToJson(<<ToString(s), act'.i, ToString(s')>>))
=============================================================================

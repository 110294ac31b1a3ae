------------------------------- MODULE Shares -------------------------------
(***************************************************************************)
(* One node of a key generation or signing session, from the moment its    *)
(* local party exists: how shares, confirmations of broadcast shares,      *)
(* requests for missing shares, answers to them and completion reports     *)
(* that reach the node change its state, and what the node does.           *)
(*                                                                         *)
(* Post(s, i) is the set of all allowed reactions to input i in state s:   *)
(* records [s |-> next state, o |-> what can be observed].                 *)
(*                                                                         *)
(* Properties C05, C06, C07, C08, C10 and the first half of C12.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cfg    == JsonDeserialize(IOEnv.CFG)
N      == Cfg.n
Self   == Cfg.self
Parts  == ToSet(Cfg.parts)
Outs   == ToSet(Cfg.outs)
Peers  == Parts \union Outs
Mids   == ToSet(Cfg.mids)          \* the messages that are signed together
Rounds == ToSet(Cfg.rounds)
CT     == Cfg.ct                   \* all the contents a share may have
Inputs == ToSet(Cfg.inputs)
FinAll == Cfg.finall               \* known finding D14: reports of outsiders count as completions

Others == Parts \ {Self}
Keys   == Parts \X Rounds
None   == ""

\* two thirds rounded up, minus one
T == ((2 * N + 2) \div 3) - 1

\* an item of the table of broadcast shares that wait for their confirmation
NoItem == [on |-> FALSE, msg |-> None, votes |-> [p \in Parts |-> None]]

Init0 == [items  |-> [k \in Keys |-> NoItem],
          stored |-> [k \in Keys |-> None],   \* confirmed shares, to answer requests and as evidence
          done   |-> {},                      \* <<owner, round, mid>> applied successfully
          pend   |-> {},                      \* digests asked for
          culp   |-> {},                      \* participants that sent an invalid share
          bl     |-> {},                      \* blame: <<participant, evidence>>
          told   |-> {},                      \* shares of which the node has told the others
          fin    |-> {}]                      \* peers that reported completion

NoObs == [app |-> {}, vers |-> {}, maytell |-> FALSE, reqs |-> {}, anss |-> {}]
Nothing(s) == {[s |-> s, o |-> NoObs]}

------------------------------------------------------------------------------
(* Handing a batch to the local party                                       *)

EntOK(e, owner, rnd, bc) ==
  /\ e.rt = "ok"            \* the routing information is there
  /\ e.from = owner         \* and names the one who signed the batch
  /\ e.bc = bc              \* and the kind of delivery that has been checked
  /\ e.bytes = "ok"         \* the content is a share
  /\ e.rnd = rnd            \* of the declared round
  /\ e.mid \in Mids         \* of a message that is being signed

EId(e) == <<e.from, e.rnd, e.mid>>

\* result of applying the batch cid of owner: [ok, s, app]
Apply(s, key, cid, bc) ==
  LET owner == key[1]
      c     == CT[cid]
      E     == c.ents
      valid == c.kind = "list" /\ \A j \in DOMAIN E : EntOK(E[j], owner, key[2], bc)
      new   == {j \in DOMAIN E : /\ EId(E[j]) \notin s.done
                                 /\ \A h \in 1..(j-1) : EId(E[h]) # EId(E[j])}
      good  == {j \in new : E[j].val = "ok"}
      bad   == new \ good
  IN IF ~valid \/ (new # {} /\ owner \in s.culp)
     THEN [ok |-> FALSE, s |-> s, app |-> {}]
     ELSE [ok  |-> TRUE,
           s   |-> [s EXCEPT !.done = @ \union {EId(E[j]) : j \in good},
                             !.culp = IF bad # {} THEN @ \union {owner} ELSE @,
                             !.bl   = IF bad # {} THEN @ \union {<<owner, s.stored[key]>>} ELSE @],
           app |-> {<<E[j].from, E[j].mid, E[j].v, bc>> : j \in new}]

------------------------------------------------------------------------------
(* Confirmations                                                            *)

Voters(it)  == {p \in Parts : it.votes[p] # None}
For(it, h)  == {p \in Parts : it.votes[p] = h}
Freq(it, h) == Cardinality(For(it, h))
MaxFreq(it) == {h \in {it.votes[p] : p \in Voters(it)} :
                  \A p \in Voters(it) : Freq(it, it.votes[p]) <= Freq(it, h)}

\* ask those who confirmed the digest that most of them confirmed
Request(s, key) ==
  LET it == s.items[key] IN
  IF Voters(it) = {} THEN Nothing(s)
  ELSE {IF Freq(it, h) < T - 1
        THEN [s |-> s, o |-> NoObs]
        ELSE [s |-> [s EXCEPT !.pend = @ \union {h}],
              o |-> [NoObs EXCEPT !.reqs =
                       IF For(it, h) \ {Self} = {} THEN {}
                       ELSE {<<key[1], key[2], h, For(it, h) \ {Self}>>}]] : h \in MaxFreq(it)}

Blame(s, key, it) == [s EXCEPT !.bl = @ \union {<<key[1], it.msg>>}]

\* the node holds a copy and may be able to apply it
ApplyShare(s, key) ==
  LET it    == s.items[key]
      owner == key[1]
  IN IF Cardinality(Voters(it)) < T THEN Nothing(s)
     ELSE IF it.votes[owner] # None
     THEN {[s |-> Blame([s EXCEPT !.items[key].votes[owner] = None], key, it), o |-> NoObs]}
     ELSE UNION {
       IF Freq(it, h) < T - 1
       THEN {[s |-> Blame(s, key, it), o |-> NoObs]}
       ELSE IF h # it.msg
       THEN Request([s EXCEPT !.items[key].msg = None], key)
       ELSE LET r == Apply([s EXCEPT !.stored[key] = it.msg], key, it.msg, TRUE)
            IN {[s |-> IF r.ok THEN [r.s EXCEPT !.items[key] = NoItem] ELSE r.s,
                 o |-> [NoObs EXCEPT !.app = r.app]]}
       : h \in MaxFreq(it)}

\* a broadcast share has arrived, directly or as an answer
Broadcast(s, key, cid, direct) ==
  LET it0 == s.items[key]
      it1 == IF ~it0.on \/ it0.msg = None THEN [it0 EXCEPT !.on = TRUE, !.msg = cid] ELSE it0
      it2 == [it1 EXCEPT !.votes[Self] = it1.msg]
      s1  == [s EXCEPT !.items[key] = it2, !.told = IF direct THEN @ \union {key} ELSE @]
      \* the others are told what was received; when a second copy arrives this may be repeated
      v   == IF direct /\ key \notin s.told /\ Others \ {key[1]} # {}
             THEN {<<key[1], key[2], cid, Others \ {key[1]}>>} ELSE {}
  IN {[r EXCEPT !.o.vers = v, !.o.maytell = (direct /\ key \in s.told)] : r \in ApplyShare(s1, key)}

------------------------------------------------------------------------------
(* Inputs                                                                   *)

\* a share that claims to be from i.owner; i.sig says how it is signed
Authentic(i) == i.owner \in Others /\ i.sig = "ok"

Share(s, i) ==
  LET key == <<i.owner, i.rnd>> IN
  IF ~Authentic(i) THEN Nothing(s)
  ELSE IF i.uni
  THEN LET r == Apply(s, key, i.cid, FALSE) IN {[s |-> r.s, o |-> [NoObs EXCEPT !.app = r.app]]}
  ELSE Broadcast(s, key, i.cid, i.t = "share")

\* peer i.via confirms that what it got from i.owner in i.rnd has the digest of i.cid
Ver(s, i) ==
  LET key == <<i.owner, i.rnd>>
      it0 == s.items[key]
      it1 == [it0 EXCEPT !.on = TRUE, !.votes[i.via] = i.cid]
      s1  == [s EXCEPT !.items[key] = it1]
  IN IF i.via \notin Parts \/ it0.votes[i.via] # None THEN Nothing(s)
     ELSE IF it1.msg = None THEN Request(s1, key) ELSE ApplyShare(s1, key)

Req(s, i) ==
  LET key == <<i.owner, i.rnd>> IN
  {[s |-> s, o |-> [NoObs EXCEPT !.anss =
     IF s.stored[key] = None THEN {} ELSE {<<i.via, i.owner, i.rnd, s.stored[key]>>}]]}

Ans(s, i) ==
  IF i.hash \notin s.pend THEN Nothing(s)
  ELSE Share([s EXCEPT !.pend = @ \ {i.hash}], i)

Done(s, i) ==
  {[s |-> [s EXCEPT !.fin = IF i.via \in Others \/ FinAll THEN @ \union {i.via} ELSE @], o |-> NoObs]}

\* everyone is done (with D14: as many peers as there are other participants)
Closed(s) == IF FinAll THEN Cardinality(s.fin) >= N - 1 ELSE s.fin = Others

Post(s, i) ==
  CASE i.t = "share" -> Share(s, i)
    [] i.t = "ver"   -> Ver(s, i)
    [] i.t = "req"   -> Req(s, i)
    [] i.t = "ans"   -> Ans(s, i)
    [] i.t = "done"  -> Done(s, i)

------------------------------------------------------------------------------
(* Design check: the properties as invariants of every step                 *)

VARIABLES s, act, prev
vars == <<s, act, prev>>

Init == s = Init0 /\ act = [i |-> [t |-> "init"], o |-> NoObs] /\ prev = Init0
Next == \E i \in Inputs : \E r \in Post(s, i) : s' = r.s /\ act' = [i |-> i, o |-> r.o] /\ prev' = s
Spec == Init /\ [][Next]_vars

\* votes that count in this step: those before it, plus the one it brings, plus the node's own
VotesAfter(key) ==
  LET it == prev.items[key]
      i  == act.i
      v1 == IF i.t = "ver" /\ i.via \in Parts /\ it.votes[i.via] = None /\ <<i.owner, i.rnd>> = key
            THEN [it.votes EXCEPT ![i.via] = i.cid] ELSE it.votes
  IN IF i.t \in {"share", "ans"} THEN [v1 EXCEPT ![Self] = IF it.msg = None THEN i.cid ELSE it.msg] ELSE v1

IsB(x) == x[4]
Accepted(key) == s.stored[key] # prev.stored[key]

\* C05: a broadcast share is only handed over in a step in which a quorum of confirmations is there
PC05 == act.i.t = "init" \/
  \A x \in act.o.app : IsB(x) =>
    LET key == <<act.i.owner, act.i.rnd>>
        v   == VotesAfter(key)
        cid == s.stored[key]
        cnt(h) == Cardinality({p \in Parts : v[p] = h})
    IN /\ x[1] = key[1]
       /\ Cardinality({p \in Parts : v[p] # None}) >= T
       /\ cnt(cid) >= T - 1
       /\ \A p \in Parts : v[p] # None => cnt(v[p]) <= cnt(cid)
       /\ \E j \in DOMAIN CT[cid].ents : CT[cid].ents[j].v = x[3]

\* C06: what is handed over is attributed to the one who signed it, in this session, for this kind of delivery
PC06 == \A x \in act.o.app :
    /\ x[1] \in Others
    /\ \E cid \in DOMAIN CT : \E j \in DOMAIN CT[cid].ents :
         LET e == CT[cid].ents[j] IN e.v = x[3] /\ e.from = x[1] /\ e.bc = x[4] /\ e.mid = x[2] /\ e.rnd = act.i.rnd
    /\ act.i.t \in {"share", "ans"} => act.i.owner = x[1] /\ act.i.sig = "ok"

\* C07: nothing is handed over again
PC07 == \A x \in act.o.app : <<x[1], act.i.rnd, x[2]>> \notin prev.done

\* C08: requests go to those who confirmed the digest, answers carry what was accepted
PC08 == /\ \A q \in act.o.reqs : \A p \in q[4] : VotesAfter(<<q[1], q[2]>>)[p] = q[3]
        /\ \A q \in act.o.reqs : q[3] \in s.pend
        /\ \A a \in act.o.anss : a[4] = prev.stored[<<a[2], a[3]>>] /\ a[1] = act.i.via
        /\ (act.i.t = "ans" /\ act.i.hash \notin prev.pend) => s = prev /\ act.o = NoObs

\* C10: only others are blamed, and only if they signed something bad, or gave up on their own share
PC10 == \A b \in s.bl : b[1] \in Others

\* C12: done exactly when all others have reported
PC12 == ~FinAll => (Closed(s) <=> Others \subseteq s.fin)

Safe == PC05 /\ PC06 /\ PC07 /\ PC08 /\ PC10 /\ PC12
TypeOK == /\ s.pend \subseteq DOMAIN CT /\ s.culp \subseteq Others /\ s.fin \subseteq Peers
          /\ \A k \in Keys : ~s.items[k].on => s.items[k] = NoItem

View == s
\* every transition of the model is checked, and printed for the generation of scripts
Checked == Safe' \/ Assert(FALSE, <<"property broken", prev', act', s'>>)
Export == Checked /\ PrintT("EDGE " \o ToJson(<<ToString(s), act'.i, ToString(s')>>))
=============================================================================

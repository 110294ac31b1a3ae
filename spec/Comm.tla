------------------------------- MODULE Comm --------------------------------
(***************************************************************************)
(* The message layer of a node: which session receives a message that       *)
(* arrives on a stream, who is sent a broadcast, and which streams are held *)
(* for which session until that is released. Properties C13 and C15.        *)
(* Every operation is one atomic step; operations that run at the same time *)
(* have the effect of some order of them.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cfg    == JsonDeserialize(IOEnv.CFG)
Inputs == ToSet(Cfg.inputs)
Prop   == IOEnv.PROP

Init0 == [subs |-> {},   \* <<kind, session, channel>>: at most one channel for each kind and session
          strs |-> {}]   \* <<stream, session>>: streams held, session "UNKNOWN" if it could not be determined
Nothing == [del |-> {}, got |-> {}, resets |-> {}]

Held(s, x) == {r \in s.strs : r[2] = x}
Drop(s, k, x) == {r \in s.subs : ~(r[1] = k /\ r[2] = x)}

(* one operation: the state after it and what is seen of it *)
Do(s, i) ==
  CASE i.op = "sub"    -> [s |-> [s EXCEPT !.subs = Drop(s, i.kind, i.sess) \union {<<i.kind, i.sess, i.ch>>}], o |-> Nothing]
    [] i.op = "cancel" -> [s |-> [s EXCEPT !.subs = Drop(s, i.kind, i.sess)], o |-> Nothing]
    \* a message: i.bad says that it cannot be read
    [] i.op = "arrive" ->
         [s |-> [s EXCEPT !.strs = @ \union {<<i.id, IF i.bad THEN "UNKNOWN" ELSE i.sess>>}],
          o |-> [Nothing EXCEPT !.del = IF i.bad THEN {} ELSE
                   {[ch |-> r[3], from |-> i.from, id |-> i.id] : r \in {r \in s.subs : r[1] = i.kind /\ r[2] = i.sess}}]]
    \* a broadcast: i.dead cannot be reached, the stream to i.broken breaks before anything is written
    [] i.op = "bcast"  ->
         LET opened == (ToSet(i.to) \ {"me"}) \ ToSet(i.dead)
         IN [s |-> [s EXCEPT !.strs = @ \union {<<i.id \o ":" \o p, i.sess>> : p \in opened}],
             o |-> [Nothing EXCEPT !.got = {[to |-> p, id |-> i.id] : p \in opened \ ToSet(i.broken)}]]
    [] i.op = "add"     -> [s |-> [s EXCEPT !.strs = @ \union {<<i.id, i.sess>>}], o |-> Nothing]
    [] i.op = "release" ->
         LET gone == Held(s, i.sess) \union Held(s, "UNKNOWN")
         IN [s |-> [s EXCEPT !.strs = @ \ gone], o |-> [Nothing EXCEPT !.resets = {r[1] : r \in gone}]]

Join(a, b) == [del |-> a.del \union b.del, got |-> a.got \union b.got, resets |-> a.resets \union b.resets]
RECURSIVE Fold(_, _, _)
Fold(s, l, o) == IF l = <<>> THEN [s |-> s, o |-> o]
                 ELSE LET d == Do(s, Head(l)) IN Fold(d.s, Tail(l), Join(o, d.o))
Orders(l) == {[k \in DOMAIN l |-> l[p[k]]] : p \in {f \in [DOMAIN l -> DOMAIN l] : \A a, b \in DOMAIN l : a # b => f[a] # f[b]}}
Outcomes(s, i) == IF i.op = "par" THEN {Fold(s, l, Nothing) : l \in Orders(i.l)} ELSE {Do(s, i)}

\* what was recorded: each delivery, frame and reset in a list, so that repetitions show
Agrees(o, e) ==
  /\ Prop = "C13" => /\ Len(o.del) = Cardinality(e.del) /\ {[ch |-> x.ch, from |-> x.from, id |-> x.id] : x \in ToSet(o.del)} = e.del
                     /\ \A x \in ToSet(o.del) : x.same
                     /\ Len(o.got) = Cardinality(e.got) /\ {[to |-> x.to, id |-> x.id] : x \in ToSet(o.got)} = e.got
                     /\ \A x \in ToSet(o.got) : x.same
  /\ Prop = "C15" => Len(o.resets) = Cardinality(e.resets) /\ ToSet(o.resets) = e.resets
Post(s, i, o) == {d.s : d \in {d \in Outcomes(s, i) : Agrees(o, d.o)}}

-----------------------------------------------------------------------------
VARIABLES s, act, prev, dead     \* dead: the streams reset so far
vars == <<s, act, prev, dead>>
Init == s = Init0 /\ prev = Init0 /\ dead = {} /\ act = [i |-> [op |-> "init"], o |-> Nothing]
Held1(st) == {r[1] : r \in st.strs}
Opens1(i) == IF i.op \in {"arrive", "add"} THEN {i.id} ELSE IF i.op = "bcast" THEN {i.id \o ":" \o p : p \in ToSet(i.to)} ELSE {}
Opens(i)  == IF i.op = "par" THEN UNION {Opens1(x) : x \in ToSet(i.l)} ELSE Opens1(i)
Next == \E i \in Inputs :
          /\ Opens(i) \intersect (Held1(s) \union dead) = {}     \* every stream is a new one
          /\ \E d \in Outcomes(s, i) : s' = d.s /\ prev' = s /\ act' = [i |-> i, o |-> d.o] /\ dead' = dead \union d.o.resets
Spec == Init /\ [][Next]_vars

Safe == /\ \A x, y \in s.subs : x[1] = y[1] /\ x[2] = y[2] => x = y
        /\ \A x, y \in s.strs : x[1] = y[1] => x = y
        /\ Held1(s) \intersect dead = {}
StepOK ==
  \* a delivery needs a subscription for exactly this, and there is at most one
  /\ \A x \in act'.o.del : act'.i.op = "par" \/ <<act'.i.kind, act'.i.sess, x.ch>> \in s.subs
  /\ act'.i.op = "arrive" => Cardinality(act'.o.del) <= 1 /\ s'.subs = s.subs
  /\ act'.i.op \in {"sub", "cancel"} => \A r \in s.subs : (r[1] # act'.i.kind \/ r[2] # act'.i.sess) => r \in s'.subs
  \* streams leave only by being reset, and only those of the released session or of none
  /\ \A r \in s.strs : r \in s'.strs \/ r[1] \in act'.o.resets
  /\ act'.i.op = "release" => \A r \in s.strs : (r[1] \in act'.o.resets) <=> r[2] \in {act'.i.sess, "UNKNOWN"}
  /\ act'.o.resets \intersect dead = {}
View == <<s, dead>>
Checked == (Safe' /\ StepOK) \/ Assert(FALSE, <<"property broken", s, act', s'>>)
Export == Checked /\ PrintT("EDGE " \o ToJson(<<ToString(<<s, dead>>), act'.i, ToString(<<s', dead'>>)>>))
=============================================================================

------------------------------- MODULE Notify ------------------------------
(***************************************************************************)
(* Waiting for the signatures of a session: which notices of peers end a    *)
(* wait, and how waits end otherwise. Property C16.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cfg    == JsonDeserialize(IOEnv.CFG)
Inputs == ToSet(Cfg.inputs)

\* waits: [w, sess, msgs, key, left]; at most one for each session
Init0 == [waits |-> {}]

(* A notice carries entries [m, key, kind]: a signature of message m under   *)
(* that key; kind "ok", or in which way it is not one. i.status: "ok" or     *)
(* "failed"; i.whole: it can be decoded at all.                              *)
Fits(w, i) == /\ i.whole /\ i.status = "ok" /\ i.sess = w.sess
              /\ Len(i.set) = Len(w.msgs)
              /\ \A k \in DOMAIN w.msgs : i.set[k].kind = "ok" /\ i.set[k].m = w.msgs[k] /\ i.set[k].key = w.key
Good(i) == i.sess # "" /\ i.msgs # <<>> /\ i.key # ""

\* one operation: the state after it and the waits that end, <<wait, how, time passed>>
Do(s, i) ==
  CASE i.op = "wait"   -> IF Good(i) THEN [s |-> [waits |-> s.waits \union {[w |-> i.w, sess |-> i.sess, msgs |-> i.msgs, key |-> i.key, left |-> i.t]}], o |-> {}]
                          ELSE [s |-> s, o |-> {<<i.w, "err", 0>>}]
    [] i.op = "notice" -> LET F == {w \in s.waits : Fits(w, i)} IN [s |-> [waits |-> s.waits \ F], o |-> {<<w.w, i.id, 0>> : w \in F}]
    [] i.op = "local"  -> LET F == {w \in s.waits : w.w = i.w} IN [s |-> [waits |-> s.waits \ F], o |-> {<<w.w, "local", 0>> : w \in F}]
    [] i.op = "adv"    -> LET F == {w \in s.waits : w.left <= i.d}
                          IN [s |-> [waits |-> {[w EXCEPT !.left = @ - i.d] : w \in s.waits \ F}], o |-> {<<w.w, "timeout", w.left>> : w \in F}]
RECURSIVE Fold(_, _, _)
Fold(s, l, o) == IF l = <<>> THEN [s |-> s, o |-> o]
                 ELSE LET d == Do(s, Head(l)) IN Fold(d.s, Tail(l), o \union d.o)
Orders(l) == {[k \in DOMAIN l |-> l[p[k]]] : p \in {f \in [DOMAIN l -> DOMAIN l] : \A a, b \in DOMAIN l : a # b => f[a] # f[b]}}
Outcomes(s, i) == IF i.op = "par" THEN {Fold(s, l, {}) : l \in Orders(i.l)} ELSE {Do(s, i)}
Post(s, i, o) == {d.s : d \in {d \in Outcomes(s, i) : Len(o.done) = Cardinality(d.o) /\ {<<x.w, x.r, x.t>> : x \in ToSet(o.done)} = d.o}}

VARIABLES s, act, prev
vars == <<s, act, prev>>
Init == s = Init0 /\ prev = Init0 /\ act = [i |-> [op |-> "init"], o |-> {}]
Free(st, i) == CASE i.op = "wait" -> \A w \in st.waits : w.sess # i.sess /\ w.w # i.w
                 [] OTHER -> TRUE
Next == \E i \in Inputs : Free(s, i) /\ \E d \in Outcomes(s, i) : s' = d.s /\ prev' = s /\ act' = [i |-> i, o |-> d.o]
Spec == Init /\ [][Next]_vars
Safe == \A a, b \in s.waits : a.sess = b.sess => a = b
StepOK ==
  /\ \A x \in act'.o : Cardinality({y \in act'.o : y[1] = x[1]}) = 1
  \* a wait ends for one of the reasons it may end, with nothing but a whole valid set of its own session as its result
  /\ act'.i.op = "notice" => \A x \in act'.o : \E w \in s.waits : w.w = x[1] /\ Fits(w, act'.i)
  /\ act'.i.op = "notice" /\ act'.o = {} => s' = s
  /\ act'.i.op \in {"notice", "local"} => \A w \in s.waits : w \in s'.waits \/ \E x \in act'.o : x[1] = w.w
  /\ \A w \in s'.waits : w.left > 0
View == s
Checked == (Safe' /\ StepOK) \/ Assert(FALSE, <<"property broken", s, act', s'>>)
Export == Checked /\ PrintT("EDGE " \o ToJson(<<ToString(s), act'.i, ToString(s')>>))
=============================================================================

------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* What a node keeps on disk: a key share for each pool key and the address *)
(* book, across restarts, failing and interrupted saves and concurrent use. *)
(* Properties C19 and C20.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cfg    == JsonDeserialize(IOEnv.CFG)
Inputs == ToSet(Cfg.inputs)

None == "none"
\* slots: the pool keys and "book"; for each the values it may hold (more than one after an interruption only)
Init0 == [may |-> <<>>]
\* shares are named; a book is <<list>>, no book is <<>>
NoBook == <<>>
May(s, k) == IF k \in DOMAIN s.may THEN s.may[k] ELSE IF k = "book" THEN {NoBook} ELSE {None}
Set(s, k, V) == [s EXCEPT !.may = (k :> V) @@ @]

\* an address book is a list of [p, a, lo]; what is read back of it
Kept(b) == {<<b[k].p, b[k].a>> : k \in {k \in DOMAIN b : ~b[k].lo}}

(* one operation with its result: the states after it, none if the result    *)
(* cannot be                                                                 *)
Do(s, i, o) ==
  CASE i.op = "save" -> IF o.r = "ok" THEN {Set(s, i.k, {i.v})} ELSE {}
    [] i.op = "get"  -> IF o.r \in May(s, i.k) THEN {Set(s, i.k, {o.r})} ELSE {}
    [] i.op = "savebook" -> IF o.r = "ok" THEN {Set(s, "book", {<<i.book>>})} ELSE {}
    [] i.op = "getbook"  -> LET fit == {b \in May(s, "book") : IF b = NoBook THEN o.r = None
                                          ELSE o.r = "ok" /\ {<<x.p, x.a>> : x \in ToSet(o.l)} = Kept(b[1]) /\ Len(o.l) = Cardinality(Kept(b[1]))}
                            IN IF fit # {} THEN {Set(s, "book", fit)} ELSE {}
    \* not a pool key: refused, and nothing on disk changes
    [] i.op = "bad"      -> IF o.r = "err" /\ o.clean THEN {s} ELSE {}
    \* a new node on the same folder
    [] i.op = "restart"  -> IF o.r = "ok" THEN {s} ELSE {}
    \* a save that cannot complete, or is killed: o.r tells what was seen of it
    [] i.op = "fault"    -> CASE o.r = "ok"   -> {Set(s, i.k, {i.v})}
                              [] o.r = "err"  -> {s}
                              [] o.r = "dead" -> {Set(s, i.k, May(s, i.k) \union {i.v})}
                              [] OTHER -> {}
    \* saves of several values over and over until the node is killed
    [] i.op = "kill"     -> IF o.r = "dead" THEN {Set(s, i.k, May(s, i.k) \union ToSet(i.vs))} ELSE {}
    [] OTHER -> {}

RECURSIVE Fold(_, _, _)
Fold(S, l, o) == IF l = <<>> THEN S ELSE Fold(UNION {Do(s, Head(l), Head(o)) : s \in S}, Tail(l), Tail(o))
Perms(n) == {f \in [1..n -> 1..n] : \A a, b \in 1..n : a # b => f[a] # f[b]}
Post(s, i, o) ==
  IF i.op = "par"
  THEN UNION {Fold({s}, [k \in DOMAIN i.l |-> i.l[p[k]]], [k \in DOMAIN i.l |-> o.l[p[k]]]) : p \in Perms(Len(i.l))}
  ELSE Do(s, i, o)

-----------------------------------------------------------------------------
VARIABLES s, act, prev
vars == <<s, act, prev>>
Init == s = Init0 /\ prev = Init0 /\ act = [i |-> [op |-> "init"], o |-> [r |-> "ok"]]
Outs(st, i) == CASE i.op = "get" -> {[r |-> v] : v \in May(st, i.k)}
                 [] i.op = "getbook" -> {IF b = NoBook THEN [r |-> None, l |-> <<>>]
                                         ELSE [r |-> "ok", l |-> [k \in 1..Cardinality(Kept(b[1])) |-> LET e == SetToSeq(Kept(b[1]))[k] IN [p |-> e[1], a |-> e[2]]]] : b \in May(st, "book")}
                 [] i.op = "bad" -> {[r |-> "err", clean |-> TRUE]}
                 [] i.op = "fault" -> {[r |-> x] : x \in {"ok", "err", "dead"}}
                 [] i.op = "kill" -> {[r |-> "dead"]}
                 [] OTHER -> {[r |-> "ok"]}
Next == \E i \in Inputs : i.op # "par" /\ \E o \in Outs(s, i) : \E t \in Post(s, i, o) : s' = t /\ prev' = s /\ act' = [i |-> i, o |-> o]
Spec == Init /\ [][Next]_vars
Slot(i) == IF "k" \in DOMAIN i THEN i.k ELSE IF i.op \in {"savebook", "getbook"} THEN "book" ELSE ""
\* durable: what was certain stays certain but for a later save to the same slot; isolated: other slots do not change
StepOK == /\ \A k \in DOMAIN s.may : k # Slot(act'.i) => s'.may[k] = s.may[k]
          /\ act'.i.op \in {"get", "getbook", "bad", "restart"} => \A k \in DOMAIN s.may : s'.may[k] # {} /\ s'.may[k] \subseteq s.may[k]
          /\ act'.i.op = "fault" /\ act'.o.r = "err" => s' = s
          /\ act'.i.op = "fault" => May(s, act'.i.k) \subseteq May(s', act'.i.k) \/ act'.o.r = "ok"
View == s
Checked == StepOK \/ Assert(FALSE, <<"property broken", s, act', s'>>)
Export == Checked /\ PrintT("EDGE " \o ToJson(<<ToString(s), act'.i, ToString(s')>>))
=============================================================================

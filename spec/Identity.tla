------------------------------ MODULE Identity ------------------------------
(***************************************************************************)
(* Identities of a node: its public key, its peer identity and its party    *)
(* identity within a session. The conversions are one relation, one to one, *)
(* and every node of a session derives the same parties. Property C25.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cfg    == JsonDeserialize(IOEnv.CFG)
Inputs == ToSet(Cfg.inputs)
Pubs   == ToSet(Cfg.pubs)
PeerIds == ToSet(Cfg.peers)

Init0 == [pairs |-> {},       \* <<pub, peer>>
          sess  |-> {}]       \* <<set of keys, <<party id, key, index>> >>
Fits(P, pub, peer) == \A x \in P : (x[1] = pub) <=> (x[2] = peer)

\* the smallest integer not below two thirds of n, minus one
Threshold(n) == ((2 * n + 2) \div 3) - 1

\* results: for a conversion the other name, or "err"
Post(s, i, o) ==
  CASE i.op = "pub2peer" -> IF Fits(s.pairs, i.a, o.r) /\ o.r # "err" THEN {[s EXCEPT !.pairs = @ \union {<<i.a, o.r>>}]} ELSE {}
    [] i.op = "peer2pub" -> IF Fits(s.pairs, o.r, i.a) /\ o.r # "err" THEN {[s EXCEPT !.pairs = @ \union {<<o.r, i.a>>}]} ELSE {}
    \* something that may or may not be an identity: if it is one, it is one of its own
    [] i.op = "maybe"    -> IF o.r = "err" THEN {s} ELSE IF Fits(s.pairs, o.r, i.a) THEN {[s EXCEPT !.pairs = @ \union {<<o.r, i.a>>}]} ELSE {}
    [] i.op = "bad"      -> IF o.r = "err" THEN {s} ELSE {}
    [] i.op = "good"     -> IF o.r = "ok" THEN {s} ELSE {}
    [] i.op = "pubs2peers" -> IF Len(o.l) = Len(i.l) /\ \A k \in DOMAIN i.l : <<i.l[k], o.l[k]>> \in s.pairs THEN {s} ELSE {}
    [] i.op = "peers2pubs" -> IF Len(o.l) = Len(i.l) /\ \A k \in DOMAIN i.l : <<o.l[k], i.l[k]>> \in s.pairs THEN {s} ELSE {}
    [] i.op = "threshold" -> IF (i.n < 0 /\ o.r = "err") \/ (i.n >= 0 /\ o.r = "ok" /\ o.n = Threshold(i.n)) THEN {s} ELSE {}
    \* parties of a session: o.p[k] = [id, pub, peer, index, self] in order
    [] i.op = "parties" ->
         LET K   == ToSet(i.l)
             new == {<<K, <<o.p[k].id, o.p[k].pub, o.p[k].index>>>> : k \in DOMAIN o.p}
         IN IF i.self \notin K THEN (IF o.r = "err" THEN {s} ELSE {})
            ELSE IF /\ o.r = "ok"
                    /\ Len(o.p) = Cardinality(K) /\ {o.p[k].pub : k \in DOMAIN o.p} = K
                    /\ Cardinality({o.p[k].id : k \in DOMAIN o.p}) = Cardinality(K)
                    /\ \A k \in DOMAIN o.p : /\ o.p[k].index = k - 1
                                             /\ <<o.p[k].pub, o.p[k].peer>> \in s.pairs
                                             /\ <<o.p[k].pub, o.p[k].mapped>> \in s.pairs
                                             /\ o.p[k].acc = o.p[k].pub
                    /\ \E k \in DOMAIN o.p : o.p[k].pub = i.self /\ o.p[k].id = o.local
                    /\ (\E x \in s.sess : x[1] = K) => {x \in s.sess : x[1] = K} = new
                    /\ ToSet(o.others) = {x[2] : x \in {y \in s.pairs : y[1] \in K \ {i.self}}}
                    /\ Len(o.others) = Cardinality(K) - 1
                 THEN {[s EXCEPT !.sess = @ \union new]} ELSE {}
    [] OTHER -> {}

VARIABLES s, act
vars == <<s, act>>
Init == s = Init0 /\ act = [i |-> [op |-> "init"]]
Outs(i) == CASE i.op \in {"pub2peer"} -> {[r |-> x] : x \in PeerIds \union {"err"}}
             [] i.op \in {"peer2pub", "maybe"} -> {[r |-> x] : x \in Pubs \union {"err"}}
             [] OTHER -> {[r |-> "err"]}
Next == \E i \in Inputs : \E o \in Outs(i) : \E t \in Post(s, i, o) : s' = t /\ act' = [i |-> i]
Spec == Init /\ [][Next]_vars
\* one to one, both ways
Safe == \A x, y \in s.pairs : (x[1] = y[1]) <=> (x[2] = y[2])
View == s
Checked == Safe' \/ Assert(FALSE, <<"property broken", s'>>)
Export == Checked /\ PrintT("EDGE " \o ToJson(<<ToString(s), act'.i, ToString(s')>>))
=============================================================================

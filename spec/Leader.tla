------------------------------- MODULE Leader -------------------------------
(***************************************************************************)
(* The election of a session's leader. For each session and height there is *)
(* one ranking of all nodes, the same on every node; the leader is the      *)
(* first of the listed participants. The specification does not say which   *)
(* ranking: it is fixed little by little by what has been elected.          *)
(* Property C01.                                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cfg    == JsonDeserialize(IOEnv.CFG)
Inputs == ToSet(Cfg.inputs)       \* [sess, height, list]

Bad(i) == i.sess = "" \/ i.height = 0 \/ i.list = <<>>

Init0 == [before |-> {},          \* <<sess, height, a, b>>: a comes before b
          led    |-> {}]          \* <<set, leader>>

Key(i) == <<i.sess, i.height>>
Rel(s, k) == {<<x[3], x[4]>> : x \in {y \in s.before : <<y[1], y[2]>> = k}}

\* closure after learning that a comes before all of B
Learn(R, a, B) ==
  LET up   == {a} \union {x[1] : x \in {y \in R : y[2] = a}}
      down == B \union {y[2] : y \in {z \in R : z[1] \in B}}
  IN R \union (up \X down)

\* all allowed results of an election: "" is an error
Post(s, i) ==
  IF Bad(i) THEN {[s |-> s, o |-> ""]}
  ELSE LET S == ToSet(i.list)
           R == Rel(s, Key(i))
       IN {[s |-> [s EXCEPT !.before = @ \union {<<i.sess, i.height, x[1], x[2]>> : x \in Learn(R, a, S \ {a})},
                            !.led = @ \union {<<S, a>>}],
            o |-> a] : a \in {c \in S : \A b \in S : <<b, c>> \notin R}}

\* every participant has had its turn
Turns(s, S) == \A a \in S : <<S, a>> \in s.led

VARIABLES s, act, prev, log
vars == <<s, act, prev, log>>
Init == s = Init0 /\ act = [i |-> [sess |-> "init"], o |-> ""] /\ prev = Init0 /\ log = {}
Next == \E i \in Inputs : \E r \in Post(s, i) :
          /\ s' = r.s /\ act' = [i |-> i, o |-> r.o] /\ prev' = s
          /\ log' = log \union (IF r.o = "" THEN {} ELSE {<<i.sess, i.height, ToSet(i.list), r.o>>})
Spec == Init /\ [][Next]_vars

\* agreement whatever the order, membership, stability when somebody else is dropped
Safe == /\ \A e \in log : e[4] \in e[3]
        /\ \A e, f \in log : (e[1] = f[1] /\ e[2] = f[2] /\ e[3] = f[3]) => e[4] = f[4]
        /\ \A e, f \in log : (e[1] = f[1] /\ e[2] = f[2] /\ f[3] \subseteq e[3] /\ e[4] \in f[3]) => e[4] = f[4]
View == <<s, log>>
Checked == Safe' \/ Assert(FALSE, <<"property broken", log'>>)
Export == Checked /\ PrintT("EDGE " \o ToJson(<<ToString(<<s, log>>), act'.i, ToString(<<s', log'>>)>>))
=============================================================================

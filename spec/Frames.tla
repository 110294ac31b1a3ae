------------------------------ MODULE Frames -------------------------------
(***************************************************************************)
(* Length-prefixed frames on streams: what a reader gets for what a writer  *)
(* or a stranger put on the stream, however the network splits it.          *)
(* Property C14.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cfg    == JsonDeserialize(IOEnv.CFG)
Inputs == ToSet(Cfg.inputs)
MaxPayload == Cfg.max
Header == 4
Empty == [decl |-> -1]

\* what is on each stream: the length declared, the bytes that are there in total and whose message it is
Init0 == [on |-> <<>>]
On(s, st) == IF st \in DOMAIN s.on THEN s.on[st] ELSE Empty
Put(s, st, f) == [s EXCEPT !.on = (st :> f) @@ @]

\* i.cut: the network takes only so many bytes of the write, -1: all of them
Whole(f) == f.have >= Header + f.decl
Expect(s, i) ==
  CASE i.op = "write" -> IF i.cut = -1 \/ i.cut >= Header + i.len THEN "ok" ELSE "err"
    [] i.op = "raw"   -> "ok"
    [] i.op = "read"  -> LET f == On(s, i.st)
                         IN IF f.decl >= 0 /\ f.have >= Header /\ f.decl <= MaxPayload /\ Whole(f) THEN f.id ELSE "err"
After(s, i) ==
  CASE i.op = "write" -> Put(s, i.st, [decl |-> i.len, have |-> IF i.cut = -1 THEN Header + i.len ELSE i.cut, id |-> i.id])
    [] i.op = "raw"   -> Put(s, i.st, [decl |-> i.decl, have |-> i.have, id |-> i.id])
    [] i.op = "read"  -> Put(s, i.st, Empty)
\* a frame that is too large is refused at once and nothing of its size is stored
Cheap(s, i, o) == i.op = "read" /\ On(s, i.st).decl > MaxPayload /\ On(s, i.st).have >= Header => o.ms = 0 /\ o.kb <= 2000
Post(s, i, o) == IF o.r = Expect(s, i) /\ Cheap(s, i, o) THEN {After(s, i)} ELSE {}

VARIABLES s, act, prev
vars == <<s, act, prev>>
Init == s = Init0 /\ prev = Init0 /\ act = [i |-> [op |-> "init"], r |-> ""]
Next == \E i \in Inputs : s' = After(s, i) /\ prev' = s /\ act' = [i |-> i, r |-> Expect(s, i)]
Spec == Init /\ [][Next]_vars
\* what is read was written to this very stream, whole
StepOK == act'.i.op = "read" /\ act'.r # "err" =>
            /\ On(s, act'.i.st).id = act'.r /\ On(s, act'.i.st).decl + Header <= On(s, act'.i.st).have
            /\ On(s, act'.i.st).decl <= MaxPayload
Frame == \A st \in DOMAIN s.on : st # act'.i.st => s'.on[st] = s.on[st]
View == s
Checked == (StepOK /\ Frame) \/ Assert(FALSE, <<"property broken", s, act', s'>>)
Export == Checked /\ PrintT("EDGE " \o ToJson(<<ToString(s), act'.i, ToString(s')>>))
=============================================================================

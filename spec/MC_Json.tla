------------------------------ MODULE MC_Json ------------------------------
(***************************************************************************)
(* JSON texts put together slot by slot, read, and what they denote        *)
(* written.                                                                *)
(***************************************************************************)
EXTENDS JsonRead, Json, IOUtils

MC == JsonDeserialize(IOEnv.TOON_MC)
VARIABLES gen, em
vars == <<gen, em>>

Idle == [wk |-> <<>>, idle |-> TRUE]
Value == ReadJson(gen.t, <<>>)
W == INSTANCE ToonEncode WITH ein <- [v |-> gen.v, indent |-> 2, delim |-> COMMA, fold |-> FALSE, flat |-> 0]

Init == gen = [p |-> 1, t |-> <<>>, v |-> <<>>] /\ em = Idle
Grow == /\ gen.p > 0 /\ gen.p <= Len(MC.slots)
        /\ \E i \in 1..Len(MC.slots[gen.p]) :
             gen' = [gen EXCEPT !.p = @ + 1, !.t = @ \o MC.slots[gen.p][i]]
        /\ em' = em
Read == /\ gen.p > Len(MC.slots)
        /\ LET r == Value IN
           IF r.ok THEN /\ gen' = [gen EXCEPT !.p = 0, !.v = r.v]
                        /\ em' = W!EncInit
           ELSE /\ PrintT("R" \o ToJson(<<gen.t, "err", <<>>>>))
                /\ gen' = [gen EXCEPT !.p = -1] /\ em' = em
Write == gen.p = 0 /\ ~W!EncDone /\ W!EncNext /\ gen' = gen
Say == /\ gen.p = 0 /\ W!EncDone
       /\ PrintT("R" \o ToJson(<<gen.t, "ok", em.out>>))
       /\ gen' = [gen EXCEPT !.p = -1] /\ em' = em
Next == Grow \/ Read \/ Write \/ Say
Spec == Init /\ [][Next]_vars

\* What JSON text denotes has distinct keys, and the JSON written for it is
\* read as the same value.
RECURSIVE TextOf(_, _, _)
Spell(tok) == IF tok[1] = 3 THEN <<DQ>> \o tok[2] \o <<DQ>> ELSE tok[2]
TextOf(toks, i, acc) == IF i > Len(toks) THEN acc ELSE TextOf(toks, i + 1, acc \o Spell(toks[i]))
RECURSIVE Spelled(_)
PlainText(s) == \A i \in 1..Len(s) : s[i] # DQ /\ s[i] # BSLASH /\ s[i] > 31
Spelled(v) == IF IsPrim(v) THEN Tag(v) = TStr => PlainText(v[2])
              ELSE IF IsArr(v) THEN \A i \in 1..Len(v[2]) : Spelled(v[2][i])
              ELSE \A i \in 1..Len(v[2]) : PlainText(v[2][i][1]) /\ Spelled(v[2][i][2])
ReadBack == gen.p = 0 =>
    /\ DistinctKeys(gen.v)
    /\ Spelled(gen.v) =>
         \A n \in {0, 2} :
            LET r == ReadJson(TextOf(JsonTokens(ValueEvents(gen.v), n), 1, <<>>), <<>>) IN
            r.ok /\ r.v = gen.v
=============================================================================

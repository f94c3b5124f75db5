------------------------------ MODULE MC_Events ------------------------------
(***************************************************************************)
(* Every event sequence up to a length, event by event, with what a        *)
(* consumer has made of it so far: the tree builder and the JSON writer    *)
(* run side by side.  Each sequence is printed with the verdict.           *)
(***************************************************************************)
EXTENDS JsonText, Json, IOUtils

MC == JsonDeserialize(IOEnv.TOON_MC)
Alphabet == MC.events
Depth == MC.length

VARIABLES evs, b, j, said
vars == <<evs, b, j, said>>

Init == evs = <<>> /\ b = BInit /\ j = JInit /\ said = FALSE

Add == /\ Len(evs) < Depth /\ b.st # "bad" /\ said
       /\ \E i \in 1..Len(Alphabet) :
            LET e == Alphabet[i] IN
            /\ evs' = Append(evs, e)
            /\ b' = BStep(b, e)
            /\ j' = IF BStep(b, e).st = "ok" THEN JStep(j, e, 2) ELSE j
            /\ said' = FALSE

Verdict == BVerdict(b)
Say == /\ ~said
       /\ PrintT("R" \o ToJson(<<evs, Verdict,
                   IF Verdict = "ok" THEN Plain(BTree(b)) ELSE <<>>,
                   IF Verdict = "ok" THEN j.toks ELSE <<>>,
                   IF Verdict = "ok" THEN JsonTokens(evs, 0) ELSE <<>>>>))
       /\ said' = TRUE /\ UNCHANGED <<evs, b, j>>
Next == Add \/ Say
Spec == Init /\ [][Next]_vars

(*******************************  invariants  ******************************)
\* The verdict does not depend on how it is reached.
StepwiseIsRun == b = BRun(evs, 1, BInit)
\* A value's own events are a complete value and build that value again.
Inverse == Verdict = "ok" =>
    LET v == Plain(BTree(b)) IN
    DistinctKeys(v) =>
        Plain(BTree(BRun(ValueEvents(v), 1, BInit))) = v
\* Open containers: the builder and the writer agree.
SameStack == b.st = "ok" => Len(b.stk) = Len(j.stk)
\* As many opens as closes when complete, never more closes than opens.
Count(k) == Len(SelectSeq(evs, LAMBDA e : e[1] \in k))
Balanced == /\ b.st # "bad" => Count({2, 4}) <= Count({1, 3})
            /\ Verdict \in {"ok", "empty"} => Count({2, 4}) = Count({1, 3})
\* Once bad, for ever bad (nothing can repair it): the run stops there, so it
\* is enough that no action leaves it.
StaysBad == [][b.st = "bad" => b'.st = "bad"]_vars
=============================================================================

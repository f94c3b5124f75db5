------------------------------- MODULE MC_Cli -------------------------------
(***************************************************************************)
(* Every scene over a list of input names, run to every end it can have.   *)
(* What each end leaves behind is printed.                                 *)
(***************************************************************************)
EXTENDS Cli, Json, IOUtils, TLC

MC == JsonDeserialize(IOEnv.TOON_MC)
Names == {MC.names[i] : i \in 1..Len(MC.names)}

\* Fields that nothing depends on any more keep one value.
Init ==
    /\ \E flag \in {"none", "e", "d", "ed", "help"}, opts \in {"good", "bad"} :
       \E name \in Names, src \in {"text", "bytes", "missing", "dir"} :
       \E conv \in BOOLEAN, dst \in {"stdout", "new", "old", "nodir", "isdir", "full", "limit", "self"} :
       \E sink \in {"pipe", "full", "shut", "cut"}, stats \in BOOLEAN, err \in {"ok", "full"} :
          /\ sc = [flag |-> flag, opts |-> opts, name |-> name, src |-> src, conv |-> conv,
                   dst |-> dst, sink |-> sink, stats |-> stats, err |-> err]
          /\ src # "text" => conv
          /\ src = "missing" => ~(name = <<>> \/ name = Dash)
          /\ dst = "self" => ~(name = <<>> \/ name = Dash) /\ src \in {"text", "bytes"}
          /\ dst # "stdout" => sink \in {"pipe", "full"}
          /\ err = "full" => sink = "pipe"
          /\ opts = "bad" => flag \in {"none", "d"} /\ err = "ok"
          /\ flag = "help" => err = "ok" /\ sink = "pipe" /\ src \in {"text", "missing"} /\ ~stats
          /\ flag = "ed" => src = "text" /\ ~stats
    /\ c = Start
\* What can be seen from outside.
Stage(n) == IF n = Pieces THEN "all" ELSE IF n = -2 THEN "absent" ELSE IF n = -1 THEN "before" ELSE "some"
Say == /\ Ended
       /\ PrintT("R" \o ToJson(<<sc, c.dir, IF c.exit = 0 THEN 0 ELSE 1,
                    IF c.out = 0 THEN "none" ELSE IF c.out = Pieces THEN "all" ELSE "some",
                    Stage(c.file), c.said, c.when>>))
       /\ c' = [c EXCEPT !.ph = "said"] /\ UNCHANGED sc
Next == CliNext \/ Say
Spec == Init /\ [][Next]_cvars
FairSpec == Spec /\ WF_cvars(Next)
Ends == <>(c.ph = "said")
=============================================================================

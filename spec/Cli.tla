--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* One run of the command-line tool: arguments are parsed, a direction is  *)
(* chosen, the input is read whole, converted whole, and only then is the  *)
(* output opened and written, piece by piece through a buffer, ended by    *)
(* one newline; at last something may be said on standard error.           *)
(*                                                                         *)
(* sc is the scene: the command line and the state of the world around it. *)
(*   flag   none, e, d, ed (both), help                                    *)
(*   name   <<>> for no input argument, else the argument's text           *)
(*   src    what is read: text, bytes (not UTF-8), missing, dir            *)
(*   conv   whether the text converts in the direction that is right       *)
(*   dst    where the output is asked to go: stdout, new (a file not yet   *)
(*          there), old (one that is), nodir (in a missing directory),     *)
(*          isdir (a directory), full (a full device), limit (a file that  *)
(*          can only take part of the output), self (the input file)       *)
(*   sink   standard output: pipe (read to the end), full, shut (nobody    *)
(*          reads), cut (the reader leaves after a while)                  *)
(*   opts   good or bad; stats; err: standard error ok or full             *)
(***************************************************************************)
EXTENDS Chars

VARIABLES sc, c
cvars == <<sc, c>>

Pieces == 3                     \* pieces of output, the last one the newline
Dash == <<HYPHEN>>
FromStdin == sc.name = <<>> \/ sc.name = Dash

(******************************  direction  ********************************)
Lower(ch) == IF ch > 64 /\ ch < 91 THEN ch + 32 ELSE ch
RECURSIVE LastAt(_, _, _)
LastAt(t, ch, i) == IF i < 1 \/ t[i] = ch THEN i ELSE LastAt(t, ch, i - 1)
FileName(t) == From(t, LastAt(t, 47, Len(t)) + 1)
\* What follows the last dot of the name, if the dot is not its first character.
Extension(t) == LET f == FileName(t)
                    d == LastAt(f, DOT, Len(f))
                IN IF d <= 1 THEN <<>> ELSE From(f, d + 1)
LowerCase(t) == [i \in 1..Len(t) |-> Lower(t[i])]
ToonExt == <<116, 111, 111, 110>>
Direction == CASE sc.flag = "e" -> "encode"
               [] sc.flag = "d" -> "decode"
               [] OTHER -> IF LowerCase(Extension(sc.name)) = ToonExt THEN "decode" ELSE "encode"

(*********************************  run  ***********************************)
\* out: pieces seen on standard output; file: the named file, -2 not there,
\* -1 as it was, else the pieces written since it was emptied; buf: pieces
\* handed over but not yet delivered; said: something on standard error.
Before == CASE sc.dst \in {"old", "self", "limit"} -> -1
            [] sc.dst \in {"new", "nodir", "full"} -> -2
            [] OTHER -> -1
Start == [ph |-> "parse", dir |-> "", out |-> 0, file |-> Before, buf |-> 0, put |-> 0,
          exit |-> -1, said |-> FALSE, when |-> ""]
Fail(code) == c' = [c EXCEPT !.ph = "end", !.exit = code, !.said = TRUE, !.when = c.ph]

Parse == /\ c.ph = "parse"
         /\ IF sc.opts = "bad" \/ sc.flag = "ed" THEN Fail(2)
            ELSE IF sc.flag = "help"
                 THEN c' = [c EXCEPT !.ph = "end", !.exit = 0, !.when = "help"]
            ELSE c' = [c EXCEPT !.ph = "read", !.dir = Direction]
Read == /\ c.ph = "read"
        /\ IF sc.src = "text" THEN c' = [c EXCEPT !.ph = "convert"] ELSE Fail(1)
Convert == /\ c.ph = "convert"
           /\ IF sc.conv THEN c' = [c EXCEPT !.ph = "open"] ELSE Fail(1)
Open == /\ c.ph = "open"
        /\ CASE sc.dst = "stdout" -> c' = [c EXCEPT !.ph = "write"]
             [] sc.dst \in {"nodir", "isdir"} -> Fail(1)
             [] OTHER -> c' = [c EXCEPT !.ph = "write", !.file = 0]
Put == /\ c.ph = "write" /\ c.put < Pieces
       /\ c' = [c EXCEPT !.put = @ + 1, !.buf = @ + 1]
\* How many pieces the destination can take in all.
Room == IF sc.dst = "stdout"
        THEN CASE sc.sink = "pipe" -> Pieces [] sc.sink = "cut" -> 1 [] OTHER -> 0
        ELSE CASE sc.dst = "full" -> 0 [] sc.dst = "limit" -> 1 [] OTHER -> Pieces
Taken == IF sc.dst = "stdout" THEN c.out ELSE c.file
\* Buffered pieces may be delivered at any time, and are before the end.
Deliver == /\ c.ph = "write" /\ c.buf > 0
           /\ IF Taken < Room
              THEN c' = IF sc.dst = "stdout" THEN [c EXCEPT !.out = @ + 1, !.buf = @ - 1]
                        ELSE [c EXCEPT !.file = @ + 1, !.buf = @ - 1]
              ELSE Fail(1)
Finish == /\ c.ph = "write" /\ c.put = Pieces /\ c.buf = 0
          /\ c' = [c EXCEPT !.ph = "tell"]
Tells == sc.dst # "stdout" \/ (sc.stats /\ c.dir = "encode")
\* If nothing can be said on standard error the run ends one way or the other.
Tell == /\ c.ph = "tell"
        /\ \E code \in IF Tells /\ sc.err = "full" THEN {0, 1} ELSE {0} :
             c' = [c EXCEPT !.ph = "end", !.exit = code, !.said = Tells, !.when = "done"]
CliNext == (Parse \/ Read \/ Convert \/ Open \/ Put \/ Deliver \/ Finish \/ Tell) /\ UNCHANGED sc
Ended == c.ph = "end"

(*****************************  what must hold  ****************************)
\* Success means that all of it got where it was asked to go, and nowhere else.
Complete == Ended /\ c.exit = 0 /\ c.when # "help" =>
    IF sc.dst = "stdout" THEN c.out = Pieces ELSE c.file = Pieces /\ c.out = 0
\* Nothing is touched unless writing had begun.
Untouched == Ended /\ c.when \in {"parse", "read", "convert", "open", "help"} =>
    c.out = 0 /\ c.file = Before
\* Failure is reported.
Reported == Ended /\ c.exit # 0 => c.said
\* Only what is good throughout succeeds.
OnlyGood == Ended /\ c.exit = 0 /\ c.when # "help" =>
    sc.src = "text" /\ sc.conv /\ sc.opts = "good" /\ sc.flag \in {"none", "e", "d"}
    /\ sc.dst \in {"stdout", "new", "old", "self"} /\ (sc.dst = "stdout" => sc.sink = "pipe")
\* And all that is succeeds (unless standard error is in the way).
AllGood == Ended /\ c.exit # 0 /\ sc.err = "ok" =>
    ~( sc.src = "text" /\ sc.conv /\ sc.opts = "good" /\ sc.flag \in {"none", "e", "d"}
       /\ sc.dst \in {"stdout", "new", "old", "self"} /\ (sc.dst = "stdout" => sc.sink = "pipe") )
=============================================================================

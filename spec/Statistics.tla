----------------------------- MODULE Statistics -----------------------------
(***************************************************************************)
(* The estimate of tokens: one for every four characters that are not      *)
(* white space, but not fewer than the words, nor than one.                *)
(***************************************************************************)
EXTENDS Chars

RECURSIVE Inked(_, _, _), Words(_, _, _, _)
Inked(t, i, n) == IF i > Len(t) THEN n ELSE Inked(t, i + 1, IF IsWs(t[i]) THEN n ELSE n + 1)
Words(t, i, out, n) ==
    IF i > Len(t) THEN n
    ELSE IF IsWs(t[i]) THEN Words(t, i + 1, TRUE, n)
    ELSE Words(t, i + 1, FALSE, IF out THEN n + 1 ELSE n)
Greater(a, b) == IF a > b THEN a ELSE b
Tokens(t) == Greater(1, Greater(Words(t, 1, TRUE, 0), Inked(t, 1, 0) \div 4))
Saved(a, b) == IF b < a THEN a - b ELSE 0

\* What is printed: the two estimates; and, when there is a saving, the
\* saving and its share in tenths of a percent, rounded.
StatsRight(nums, input, output) ==
    LET a == Tokens(input)
        b == Tokens(output)
        d == Saved(a, b)
    IN IF d = 0 THEN nums = <<a, b>>
       ELSE /\ Len(nums) = 4 /\ SubSeq(nums, 1, 3) = <<a, b, d>>
            /\ 2 * (nums[4] * a - 1000 * d) <= a /\ 2 * (1000 * d - nums[4] * a) <= a
=============================================================================

------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Text as the specification sees it.  A string is a sequence of Unicode   *)
(* code points (integers); a document is a sequence of strings.            *)
(***************************************************************************)
EXTENDS Integers, Sequences

TAB == 9    LF == 10    CR == 13    SP == 32    DQ == 34    PLUS == 43
COMMA == 44 HYPHEN == 45 DOT == 46  ZERO == 48  COLON == 58 UPE == 69
LBRACK == 91 BSLASH == 92 RBRACK == 93 UNDER == 95 LOWE == 101
LBRACE == 123 PIPE == 124 RBRACE == 125

\* Unicode White_Space: what "blank" and "trim" mean.
WsSet == (9..13) \cup {32, 133, 160, 5760} \cup (8192..8202)
            \cup {8232, 8233, 8239, 8287, 12288}

IsWs(c)    == \/ c < 33 /\ (c = 32 \/ (c > 8 /\ c < 14))
              \/ c > 126 /\ c \in WsSet
IsDigit(c) == c > 47 /\ c < 58
IsAlpha(c) == (c > 64 /\ c < 91) \/ (c > 96 /\ c < 123)
IsAlnum(c) == IsDigit(c) \/ IsAlpha(c)

From(s, i) == SubSeq(s, i, Len(s))

RECURSIVE SkipWs(_, _)
SkipWs(s, i) == IF i <= Len(s) /\ IsWs(s[i]) THEN SkipWs(s, i + 1) ELSE i

RECURSIVE BackWs(_, _)
BackWs(s, i) == IF i >= 1 /\ IsWs(s[i]) THEN BackWs(s, i - 1) ELSE i

TrimStart(s) == IF s = <<>> \/ ~IsWs(s[1]) THEN s ELSE From(s, SkipWs(s, 1))
Trim(s) ==
    IF s = <<>> THEN s
    ELSE IF ~IsWs(s[1]) /\ ~IsWs(s[Len(s)]) THEN s
    ELSE LET a == SkipWs(s, 1) IN
         IF a > Len(s) THEN <<>> ELSE SubSeq(s, a, BackWs(s, Len(s)))

RECURSIVE SkipChar(_, _, _)
SkipChar(s, c, i) == IF i <= Len(s) /\ s[i] = c THEN SkipChar(s, c, i + 1) ELSE i

RECURSIVE SkipDigits(_, _)
SkipDigits(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN SkipDigits(s, i + 1) ELSE i

\* First position >= i holding c; 0 when there is none.
RECURSIVE FindChar(_, _, _)
FindChar(s, c, i) ==
    IF i > Len(s) THEN 0 ELSE IF s[i] = c THEN i ELSE FindChar(s, c, i + 1)

Contains(s, c) == FindChar(s, c, 1) > 0

\* The same outside double quotes.  A backslash inside quotes protects the
\* character after it (a backslash that ends the text protects nothing).
RECURSIVE FindUnq(_, _, _, _)
FindUnq(s, c, i, inq) ==
    IF i > Len(s) THEN 0
    ELSE IF inq /\ s[i] = BSLASH /\ i < Len(s) THEN FindUnq(s, c, i + 2, inq)
    ELSE IF s[i] = DQ THEN FindUnq(s, c, i + 1, ~inq)
    ELSE IF ~inq /\ s[i] = c THEN i
    ELSE FindUnq(s, c, i + 1, inq)
FindUnquoted(s, c, i) == FindUnq(s, c, i, FALSE)

\* Position of the quote closing the one at position i; 0 when there is none.
RECURSIVE ClosingFrom(_, _)
ClosingFrom(s, i) ==
    IF i > Len(s) THEN 0
    ELSE IF s[i] = BSLASH /\ i < Len(s) THEN ClosingFrom(s, i + 2)
    ELSE IF s[i] = DQ THEN i
    ELSE ClosingFrom(s, i + 1)
ClosingQuote(s, i) == ClosingFrom(s, i + 1)

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

Spaces(n) == [i \in 1..n |-> SP]
Zeros(n)  == [i \in 1..n |-> ZERO]

RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<ZERO + n>> ELSE DigitsOf(n \div 10) \o <<ZERO + (n % 10)>>

RECURSIVE IntOfDigits(_, _, _)
IntOfDigits(s, i, acc) ==
    IF i > Len(s) THEN acc ELSE IntOfDigits(s, i + 1, acc * 10 + (s[i] - ZERO))

RECURSIVE JoinFrom(_, _, _, _)
JoinFrom(parts, sep, i, acc) ==
    IF i > Len(parts) THEN acc
    ELSE JoinFrom(parts, sep, i + 1, IF i = 1 THEN parts[1] ELSE acc \o sep \o parts[i])
Join(parts, sep) == JoinFrom(parts, sep, 1, <<>>)

RECURSIVE SplitFrom(_, _, _, _, _)
SplitFrom(s, c, i, start, acc) ==
    IF i > Len(s) THEN Append(acc, SubSeq(s, start, Len(s)))
    ELSE IF s[i] = c THEN SplitFrom(s, c, i + 1, i + 1, Append(acc, SubSeq(s, start, i - 1)))
    ELSE SplitFrom(s, c, i + 1, start, acc)
Split(s, c) == SplitFrom(s, c, 1, 1, <<>>)
=============================================================================

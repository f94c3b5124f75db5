------------------------------ MODULE Literals ------------------------------
(***************************************************************************)
(* The lexical layer: keywords, numbers, escapes, when a key or a string   *)
(* may stand without quotes, and how a token is read back.                 *)
(*                                                                         *)
(* Values are tagged tuples:                                               *)
(*   <<0>> null   <<1,b>> boolean (b in 0,1)   <<2,text>> number           *)
(*   <<3,text>> string   <<4,items>> array   <<5,entries>> object, where   *)
(*   an entry is <<key, value>>.  A number is its canonical plain decimal  *)
(*   text: no exponent, no leading or trailing zero, "0" for both zeros.   *)
(***************************************************************************)
EXTENDS Chars, TLC

TNull == 0  TBool == 1  TNum == 2  TStr == 3  TArr == 4  TObj == 5
Tag(v) == v[1]
Null == <<TNull>>
Bool(b) == <<TBool, b>>
Num(t) == <<TNum, t>>
Str(t) == <<TStr, t>>
Arr(items) == <<TArr, items>>
Obj(entries) == <<TObj, entries>>
IsPrim(v) == v[1] < TArr
IsArr(v)  == v[1] = TArr
IsObj(v)  == v[1] = TObj

STrue == <<116, 114, 117, 101>>
SFalse == <<102, 97, 108, 115, 101>>
SNull == <<110, 117, 108, 108>>
IsKeyword(s) == s = STrue \/ s = SFalse \/ s = SNull

(*********************************  numbers  *******************************)
\* Where an optional exponent starting at i ends; 0 if it is malformed.
ExpEnd(s, i) ==
    IF i <= Len(s) /\ (s[i] = LOWE \/ s[i] = UPE)
    THEN LET j == IF i + 1 <= Len(s) /\ (s[i + 1] = PLUS \/ s[i + 1] = HYPHEN)
                  THEN i + 2 ELSE i + 1
             k == SkipDigits(s, j)
         IN IF k = j THEN 0 ELSE k
    ELSE i
\* Where an optional fraction starting at i ends; 0 if it is malformed.
FracEnd(s, i) ==
    IF i <= Len(s) /\ s[i] = DOT
    THEN LET k == SkipDigits(s, i + 1) IN IF k = i + 1 THEN 0 ELSE k
    ELSE i

\* Text that a reader could take for a number and that is therefore quoted
\* when it is a string: the number grammar, plus anything that begins with a
\* zero followed by another digit.
NumericLike(s) ==
    LET t == Trim(s)
        d == IF t # <<>> /\ t[1] = HYPHEN THEN 2 ELSE 1
        e == SkipDigits(t, d)
    IN IF e = d THEN FALSE
       ELSE IF e - d > 1 /\ t[d] = ZERO THEN TRUE
       ELSE LET f == FracEnd(t, e) IN
            f > 0 /\ LET x == ExpEnd(t, f) IN x > 0 /\ x = Len(t) + 1

\* The number grammar of the format (JSON's).
NumberGrammar(t) ==
    LET d == IF t # <<>> /\ t[1] = HYPHEN THEN 2 ELSE 1 IN
    IF d > Len(t) \/ ~IsDigit(t[d]) THEN FALSE
    ELSE LET e == IF t[d] = ZERO THEN d + 1 ELSE SkipDigits(t, d) IN
         IF t[d] = ZERO /\ e <= Len(t) /\ IsDigit(t[e]) THEN FALSE
         ELSE LET f == FracEnd(t, e) IN
              f > 0 /\ LET x == ExpEnd(t, f) IN x > 0 /\ x = Len(t) + 1

RECURSIVE FirstNonZero(_, _)
FirstNonZero(s, i) == IF i <= Len(s) /\ s[i] = ZERO THEN FirstNonZero(s, i + 1) ELSE i
RECURSIVE LastNonZero(_, _)
LastNonZero(s, i) == IF i >= 1 /\ s[i] = ZERO THEN LastNonZero(s, i - 1) ELSE i

\* Decimal reading of a token in the number grammar: sign, significant digits
\* with no zero at either end, and the position of the point relative to their
\* start; exact is FALSE when binary64 cannot be trusted to hold it unchanged
\* (more than 15 digits, or an exponent near the range limits).
Decimal(t) ==
    LET neg == t[1] = HYPHEN
        d == IF neg THEN 2 ELSE 1
        e == SkipDigits(t, d)
        f == IF e <= Len(t) /\ t[e] = DOT THEN SkipDigits(t, e + 1) ELSE e
        int == SubSeq(t, d, e - 1)
        frac == IF f > e THEN SubSeq(t, e + 1, f - 1) ELSE <<>>
        all == int \o frac
        a == FirstNonZero(all, 1)
        b == LastNonZero(all, Len(all))
        xs == IF f > Len(t) THEN 0
              ELSE IF t[f + 1] = PLUS \/ t[f + 1] = HYPHEN THEN f + 2 ELSE f + 1
        xneg == f <= Len(t) /\ t[f + 1] = HYPHEN
        xd == IF f > Len(t) THEN <<>>
              ELSE LET r == From(t, xs) IN From(r, FirstNonZero(r, 1))
        big == Len(xd) > 4
        x == IF xd = <<>> THEN 0 ELSE IF big THEN 99999 ELSE IntOfDigits(xd, 1, 0)
        digits == IF a > Len(all) THEN <<>> ELSE SubSeq(all, a, b)
        point == Len(int) - (a - 1) + (IF xneg THEN -x ELSE x)
    IN [neg |-> neg, digits |-> digits, point |-> point,
        exact |-> digits = <<>> \/ (Len(digits) <= 15 /\ point < 300 /\ point > -290)]

PlainDecimal(n) ==
    IF n.digits = <<>> THEN <<ZERO>>
    ELSE LET k == Len(n.digits)
             body == IF n.point <= 0 THEN <<ZERO, DOT>> \o Zeros(-n.point) \o n.digits
                     ELSE IF n.point >= k THEN n.digits \o Zeros(n.point - k)
                     ELSE SubSeq(n.digits, 1, n.point) \o <<DOT>> \o From(n.digits, n.point + 1)
         IN IF n.neg THEN <<HYPHEN>> \o body ELSE body

\* tab is the environment's table of decimal<->binary64 conversions outside
\* the exact range: entries <<token, canonical text>>, with <<>> for tokens
\* that overflow to infinity.
RECURSIVE TabLookup(_, _, _)
TabLookup(tab, t, i) ==
    IF i > Len(tab) THEN Assert(FALSE, <<"number outside the table", t>>)
    ELSE IF tab[i][1] = t THEN tab[i][2] ELSE TabLookup(tab, t, i + 1)

\* Canonical text of the number t denotes; <<>> when t denotes none.
NumberValue(t, tab) ==
    IF ~NumberGrammar(t) THEN <<>>
    ELSE LET n == Decimal(t) IN
         IF n.exact THEN PlainDecimal(n) ELSE TabLookup(tab, t, 1)

(*********************************  escapes  *******************************)
EscapeChar(c) ==
    CASE c = BSLASH -> <<BSLASH, BSLASH>>
      [] c = DQ     -> <<BSLASH, DQ>>
      [] c = LF     -> <<BSLASH, 110>>
      [] c = CR     -> <<BSLASH, 114>>
      [] c = TAB    -> <<BSLASH, 116>>
      [] OTHER      -> <<c>>
RECURSIVE EscapeFrom(_, _, _)
EscapeFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE EscapeFrom(s, i + 1, acc \o EscapeChar(s[i]))
Escape(s) == EscapeFrom(s, 1, <<>>)
Quote(s)  == <<DQ>> \o Escape(s) \o <<DQ>>

Unescaped(c) == CASE c = 110 -> LF [] c = 116 -> TAB [] c = 114 -> CR
                  [] c = BSLASH -> BSLASH [] c = DQ -> DQ [] OTHER -> -1
RECURSIVE UnescapeFrom(_, _, _)
UnescapeFrom(s, i, acc) ==
    IF i > Len(s) THEN [ok |-> TRUE, v |-> acc]
    ELSE IF s[i] # BSLASH THEN UnescapeFrom(s, i + 1, Append(acc, s[i]))
    ELSE IF i = Len(s) \/ Unescaped(s[i + 1]) = -1 THEN [ok |-> FALSE, v |-> <<>>]
    ELSE UnescapeFrom(s, i + 2, Append(acc, Unescaped(s[i + 1])))
Unescape(s) == UnescapeFrom(s, 1, <<>>)

(******************************  keys, strings  ****************************)
RECURSIVE AllIdent(_, _, _)
AllIdent(s, i, dots) ==
    \/ i > Len(s)
    \/ (IsAlnum(s[i]) \/ s[i] = UNDER \/ (dots /\ s[i] = DOT)) /\ AllIdent(s, i + 1, dots)
IdentSegment(s) == s # <<>> /\ (IsAlpha(s[1]) \/ s[1] = UNDER) /\ AllIdent(s, 2, FALSE)
PlainKey(s)     == s # <<>> /\ (IsAlpha(s[1]) \/ s[1] = UNDER) /\ AllIdent(s, 2, TRUE)

Structural(c) == c = COLON \/ c = DQ \/ c = BSLASH \/ c = LBRACK \/ c = RBRACK
                    \/ c = LBRACE \/ c = RBRACE \/ c = LF \/ c = CR \/ c = TAB
RECURSIVE NoStructural(_, _, _)
NoStructural(s, i, delim) ==
    i > Len(s) \/ (~Structural(s[i]) /\ s[i] # delim /\ NoStructural(s, i + 1, delim))
PlainString(s, delim) ==
    /\ s # <<>>
    /\ ~IsWs(s[1]) /\ ~IsWs(s[Len(s)])
    /\ s[1] # HYPHEN
    /\ ~IsKeyword(s) /\ ~NumericLike(s)
    /\ NoStructural(s, 1, delim)

EncodeKey(k) == IF PlainKey(k) THEN k ELSE Quote(k)
EncodeString(s, delim) == IF PlainString(s, delim) THEN s ELSE Quote(s)
EncodePrim(v, delim) ==
    CASE Tag(v) = TNull -> SNull
      [] Tag(v) = TBool -> IF v[2] = 1 THEN STrue ELSE SFalse
      [] Tag(v) = TNum  -> v[2]
      [] OTHER          -> EncodeString(v[2], delim)

\* Reading a token that may be quoted.  Nothing may follow the closing quote.
ReadString(tok) ==
    LET t == Trim(tok) IN
    IF t = <<>> \/ t[1] # DQ THEN [ok |-> TRUE, v |-> t]
    ELSE LET q == ClosingQuote(t, 1) IN
         IF q # Len(t) \/ q = 0 THEN [ok |-> FALSE, v |-> <<>>]
         ELSE Unescape(SubSeq(t, 2, q - 1))

ReadPrim(tok, tab) ==
    LET t == Trim(tok) IN
    IF t = <<>> THEN [ok |-> TRUE, v |-> Str(<<>>)]
    ELSE IF t[1] = DQ
         THEN LET r == ReadString(t) IN [ok |-> r.ok, v |-> Str(r.v)]
    ELSE IF t = STrue THEN [ok |-> TRUE, v |-> Bool(1)]
    ELSE IF t = SFalse THEN [ok |-> TRUE, v |-> Bool(0)]
    ELSE IF t = SNull THEN [ok |-> TRUE, v |-> Null]
    ELSE LET n == NumberValue(t, tab) IN
         IF n # <<>> THEN [ok |-> TRUE, v |-> Num(n)] ELSE [ok |-> TRUE, v |-> Str(t)]

\* Splitting a row: delimiters inside quotes do not count, every piece is
\* trimmed, an entirely empty text has no pieces.
RECURSIVE RowFrom(_, _, _, _, _, _)
RowFrom(s, delim, i, start, inq, acc) ==
    IF i > Len(s)
    THEN IF start <= Len(s) \/ acc # <<>> THEN Append(acc, Trim(From(s, start))) ELSE acc
    ELSE IF inq /\ s[i] = BSLASH THEN RowFrom(s, delim, i + 2, start, inq, acc)
    ELSE IF s[i] = DQ THEN RowFrom(s, delim, i + 1, start, ~inq, acc)
    ELSE IF s[i] = delim /\ ~inq
         THEN RowFrom(s, delim, i + 1, i + 1, inq, Append(acc, Trim(SubSeq(s, start, i - 1))))
    ELSE RowFrom(s, delim, i + 1, start, inq, acc)
SplitRow(s, delim) == RowFrom(s, delim, 1, 1, FALSE, <<>>)

RECURSIVE ReadAllFrom(_, _, _, _)
ReadAllFrom(toks, tab, i, acc) ==
    IF i > Len(toks) THEN [ok |-> TRUE, v |-> acc]
    ELSE LET r == ReadPrim(toks[i], tab) IN
         IF r.ok THEN ReadAllFrom(toks, tab, i + 1, Append(acc, r.v))
         ELSE [ok |-> FALSE, v |-> <<>>]
ReadAll(toks, tab) == ReadAllFrom(toks, tab, 1, <<>>)
=============================================================================

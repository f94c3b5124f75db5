------------------------------- MODULE Header -------------------------------
(***************************************************************************)
(* Array headers:  key[N<delim>]{field<delim>field}: inline values         *)
(***************************************************************************)
EXTENDS Literals

LengthCap == 100000000
MaxU64 == <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>

RECURSIVE DigitsLeq(_, _, _)
DigitsLeq(a, b, i) ==     \* same length
    i > Len(a) \/ a[i] < b[i] \/ (a[i] = b[i] /\ DigitsLeq(a, b, i + 1))

NoHeader  == [st |-> "none"]
BadHeader == [st |-> "err"]

\* The declared length: digits with an optional plus sign that fit 64 bits.
\* Result -1: not a length.  Result LengthCap+1: a length above the cap.
ReadLength(seg) ==
    LET s == IF seg # <<>> /\ seg[1] = PLUS THEN From(seg, 2) ELSE seg IN
    IF s = <<>> \/ SkipDigits(s, 1) # Len(s) + 1 THEN -1
    ELSE LET d == From(s, FirstNonZero(s, 1)) IN
         IF Len(d) > 20 \/ (Len(d) = 20 /\ ~DigitsLeq(d, MaxU64, 1)) THEN -1
         ELSE IF Len(d) > 9 THEN LengthCap + 1
         ELSE LET n == IntOfDigits(d, 1, 0) IN IF n > LengthCap THEN LengthCap + 1 ELSE n

RECURSIVE ReadFields(_, _, _)
ReadFields(toks, i, acc) ==
    IF i > Len(toks) THEN [ok |-> TRUE, v |-> acc]
    ELSE LET r == ReadString(toks[i]) IN
         IF r.ok
         THEN ReadFields(toks, i + 1,
                 Append(acc, [name |-> r.v, q |-> toks[i] # <<>> /\ toks[i][1] = DQ]))
         ELSE [ok |-> FALSE, v |-> <<>>]

\* c: a line without its indentation.
ParseHeader(c) ==
  LET lead == SkipWs(c, 1) IN
  IF lead > Len(c) THEN NoHeader ELSE
  LET quoted == c[lead] = DQ
      q == IF quoted THEN ClosingQuote(c, lead) ELSE 0
  IN
  IF quoted /\ q = 0 THEN BadHeader
  ELSE IF quoted /\ (q = Len(c) \/ c[q + 1] # LBRACK) THEN NoHeader
  ELSE
  LET bs == IF quoted THEN q + 1 ELSE FindChar(c, LBRACK, 1)
      uc == FindUnquoted(c, COLON, 1)
  IN
  IF bs = 0 \/ (uc > 0 /\ uc < bs) THEN NoHeader
  ELSE
  LET be == FindChar(c, RBRACK, bs) IN
  IF be = 0 THEN NoHeader
  ELSE
  LET os == FindChar(c, LBRACE, be + 1)
      c1 == FindChar(c, COLON, be + 1)
      ouq == IF os = 0 THEN 0 ELSE FindUnquoted(c, RBRACE, os)
      oe == IF os = 0 THEN 0 ELSE IF ouq > 0 THEN ouq ELSE FindChar(c, RBRACE, os)
      colon == IF os > 0 /\ c1 > 0 /\ os < c1 /\ oe > 0
               THEN FindChar(c, COLON, oe + 1) ELSE c1
  IN
  IF colon = 0 THEN NoHeader
  ELSE
  LET rawkey == Trim(SubSeq(c, 1, bs - 1))
      qkey == rawkey # <<>> /\ rawkey[1] = DQ
      kr == ReadString(rawkey)
  IN
  IF qkey /\ ~kr.ok THEN BadHeader
  ELSE
  LET seg == SubSeq(c, bs + 1, be - 1)
      last == IF seg = <<>> THEN 0 ELSE seg[Len(seg)]
      hasd == last = TAB \/ last = PIPE
      delim == IF hasd THEN last ELSE COMMA
      len == ReadLength(IF hasd THEN SubSeq(seg, 1, Len(seg) - 1) ELSE seg)
  IN
  IF len = -1 THEN NoHeader
  ELSE IF len > LengthCap THEN BadHeader
  ELSE
  LET isf == os > 0 /\ os < colon /\ oe > 0 /\ oe < colon
      fr == IF isf THEN ReadFields(SplitRow(SubSeq(c, os + 1, oe - 1), delim), 1, <<>>)
            ELSE [ok |-> TRUE, v |-> <<>>]
  IN
  IF ~fr.ok THEN BadHeader
  ELSE [st |-> "ok", haskey |-> rawkey # <<>>, key |-> kr.v, q |-> qkey,
        len |-> len, delim |-> delim, hasf |-> isf, fields |-> fr.v,
        inline |-> Trim(From(c, colon + 1))]

\* Writing a header.
DelimMark(delim) == IF delim = COMMA THEN <<>> ELSE <<delim>>
RECURSIVE JoinKeys(_, _, _, _)
JoinKeys(ks, delim, i, acc) ==
    IF i > Len(ks) THEN acc
    ELSE JoinKeys(ks, delim, i + 1,
                  (IF i = 1 THEN acc ELSE acc \o <<delim>>) \o EncodeKey(ks[i]))
\* enckey: the already encoded key, or <<>>; fields: <<>> for no field list.
FormatHeader(n, enckey, fields, delim) ==
    enckey \o <<LBRACK>> \o DigitsOf(n) \o DelimMark(delim) \o <<RBRACK>>
      \o (IF fields = <<>> THEN <<>>
          ELSE <<LBRACE>> \o JoinKeys(fields, delim, 1, <<>>) \o <<RBRACE>>)
      \o <<COLON>>
=============================================================================

--------------------------------- MODULE Utf --------------------------------
(* Unicode conversions (property C13). Texts are sequences of code units of a     *)
(* kind: "u8" UTF-8, "u16" and "be" UTF-16 in native and swapped byte order,        *)
(* "u32" and "w" the two UTF-32 types. DecOne and EncOne define one character; a   *)
(* reader decodes a source text unit by unit into another kind, and stops at the  *)
(* end or at the first ill-formed or inexpressible character. UTF-8 is the        *)
(* definition this library uses: up to six bytes, values up to 7FFFFFFF without   *)
(* surrogates. UTF-32 units are passed through by conversions among "u32" and "w". *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Points
VARIABLES st, ret, op
vars == <<st, ret, op>>

Kinds == {"u8", "u16", "be", "u32", "w"}
Swap(u) == (u % 256) * 256 + (u \div 256)
Surrogate(v) == v >= 55296 /\ v <= 57343
P2 == [i \in 0..30 |-> 2^i]
\* number of bytes of a value and the marks of the first byte
Size8(v) == IF v < 128 THEN 1 ELSE IF v < 2048 THEN 2 ELSE IF v < 65536 THEN 3 ELSE IF v < 2097152 THEN 4 ELSE IF v < 67108864 THEN 5 ELSE 6
Mark == <<0, 192, 224, 240, 248, 252>>
Room == <<128, 32, 16, 8, 4, 2>>     \* values the first byte can carry
Enc8(v) == LET n == Size8(v) IN
    [i \in 1..n |-> IF i = 1 THEN Mark[n] + (v \div P2[6 * (n - 1)]) ELSE 128 + ((v \div P2[6 * (n - i)]) % 64)]
Enc16(v) == IF v < 65536 THEN <<v>> ELSE <<55296 + (v - 65536) \div 1024, 56320 + ((v - 65536) % 1024)>>
\* <<>> if the value cannot be encoded
EncOne(k, v) ==
    CASE k \in {"u32", "w"} -> <<v>>
      [] k = "u8" -> IF v < 0 \/ Surrogate(v) THEN <<>> ELSE Enc8(v)
      [] k = "u16" -> IF v < 0 \/ v > 1114111 \/ Surrogate(v) THEN <<>> ELSE Enc16(v)
      [] k = "be" -> IF v < 0 \/ v > 1114111 \/ Surrogate(v) THEN <<>> ELSE [i \in DOMAIN Enc16(v) |-> Swap(Enc16(v)[i])]

Lead8(b) == IF b < 128 THEN 1 ELSE IF b < 192 THEN 0 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3
            ELSE IF b < 248 THEN 4 ELSE IF b < 252 THEN 5 ELSE IF b < 254 THEN 6 ELSE 0
RECURSIVE Tail8(_, _, _, _)
Tail8(s, i, n, acc) == IF i > n THEN acc ELSE IF s[i] < 128 \/ s[i] > 191 THEN -1 ELSE Tail8(s, i + 1, n, acc * 64 + s[i] - 128)
Bad == <<0, 0>>
Dec8(s) == LET n == Lead8(s[1]) IN
    IF n = 0 \/ n > Len(s) THEN Bad
    ELSE LET v == Tail8(s, 2, n, s[1] - Mark[n]) IN
         IF v < 0 THEN Bad ELSE IF Size8(v) # n \/ Surrogate(v) THEN Bad ELSE <<n, v>>
Dec16(u, rest) ==
    IF u >= 55296 /\ u <= 56319 THEN (IF rest = <<>> THEN Bad ELSE IF rest[1] >= 56320 /\ rest[1] <= 57343
                                      THEN <<2, 65536 + (u - 55296) * 1024 + rest[1] - 56320>> ELSE Bad)
    ELSE IF u >= 56320 /\ u <= 57343 THEN Bad ELSE <<1, u>>
\* the first character of a non-empty text: <<units, value>>, Bad if there is none
DecOne(k, s) ==
    CASE k \in {"u32", "w"} -> <<1, s[1]>>
      [] k = "u8" -> Dec8(s)
      [] k = "u16" -> Dec16(s[1], IF Len(s) > 1 THEN <<s[2]>> ELSE <<>>)
      [] k = "be" -> Dec16(Swap(s[1]), IF Len(s) > 1 THEN <<Swap(s[2])>> ELSE <<>>)
From(s, i) == SubSeq(s, i + 1, Len(s))
RECURSIVE Conv(_, _, _)
Conv(f, t, s) ==
    IF s = <<>> THEN <<>> ELSE
    LET d == DecOne(f, s) IN IF d[1] = 0 THEN <<>> ELSE
    LET e == EncOne(t, d[2]) IN IF e = <<>> THEN <<>> ELSE e \o Conv(f, t, From(s, d[1]))
\* "a": narrow text in the locale, here one with UTF-8 up to 10FFFF; it is converted as a whole or not at all
Whole(f, s) == \A v \in {Conv(f, "u32", s)} : Conv("u32", f, v) = s /\ \A i \in DOMAIN v : v[i] <= 1114111
Narrow(f, t, s) ==
    IF f = "a" THEN (IF Whole("u8", s) THEN Conv("u8", t, s) ELSE <<>>)
    ELSE LET w == Conv(f, "w", s) IN IF \A i \in DOMAIN w : EncOne("u16", w[i]) # <<>> THEN Conv("w", "u8", w) ELSE <<>>
First(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))

(* ------------------------------ the reader ------------------------------- *)
\* src, kinds f and t; at, size: the character being read; out: its units not handed out yet;
\* n: units handed out; got: all of them; stop: "" while reading, "end", "bad"
Closed == [f |-> "", t |-> "", src |-> <<>>, at |-> 0, size |-> 0, out |-> <<>>, got |-> <<>>, stop |-> "none"]
Open(f, t, s) == st' = [f |-> f, t |-> t, src |-> s, at |-> 0, size |-> 0, out |-> <<>>, got |-> <<>>, stop |-> ""] /\ ret' = <<"open", -1, 0, 0>>
Give(s) ==  \* hand out the first unit of s.out
    /\ st' = [s EXCEPT !.out = Tail(s.out), !.got = Append(s.got, Head(s.out))]
    /\ ret' = <<"unit", Head(s.out), Len(s.got), s.at, s.size>>
Read ==
    IF st.stop # "" THEN st' = st /\ ret' = (IF st.stop = "end" THEN <<"zero", Len(st.got), Len(st.src), 0>> ELSE <<"zero">>)
    ELSE IF st.out # <<>> THEN Give(st)
    ELSE LET i == st.at + st.size IN
         IF i = Len(st.src) THEN st' = [st EXCEPT !.at = i, !.size = 0, !.stop = "end"] /\ ret' = <<"zero", Len(st.got), i, 0>>
         ELSE LET d == DecOne(st.f, From(st.src, i)) IN
              IF d[1] = 0 THEN st' = [st EXCEPT !.stop = "bad"] /\ ret' = <<"zero">>
              ELSE LET e == EncOne(st.t, d[2]) IN
                   IF e = <<>> THEN st' = [st EXCEPT !.stop = "bad"] /\ ret' = <<"zero">>
                   ELSE Give([st EXCEPT !.at = i, !.size = d[1], !.out = e])
Val(v) == st' = st /\ ret' = v
\* a caller's buffer of n units: as much of the converted text and its terminator as fits
Into(f, t, s, n) == First(Append(Conv(f, t, s), 0), n)

Do(o) ==
    CASE o[1] = "open" -> Open(o[3], o[4], o[5])
      [] o[1] = "read" -> Read
      [] o[1] = "conv" -> Val(<<"text", Conv(o[2], o[3], o[4])>>)
      [] o[1] = "narrow" -> Val(<<"text", Narrow(o[2], o[3], o[4])>>)
      [] o[1] = "size" -> Val(<<"v", Len(Conv(o[2], o[3], o[4])) + 1>>)
      [] o[1] = "into" -> Val(<<"text", Into(o[2], o[3], o[4], o[5])>>)
      [] o[1] = "enc" -> Val(<<"enc", [i \in 1..o[4] |-> EncOne(o[2], o[3] + i - 1)]>>)
      [] o[1] = "dec" -> Val(<<"dec", [i \in 1..o[5] |-> DecOne(o[2], o[3] \o <<o[4] + i - 1>> \o o[6])]>>)

\* code units at the edges of every rule: leads, continuations, surrogates, first and last values
Alphabet == [u8 |-> {65, 128, 143, 144, 159, 160, 191, 193, 194, 224, 237, 240, 253, 254}, u16 |-> {65, 55295, 55296, 56319, 56320, 57343, 57344},
             be |-> {Swap(u) : u \in {65, 55296, 56320, 57344}}, u32 |-> {65, 128, 55296, 65536, 1114111, 1114112, -1}, w |-> {65, 57343, 65535, 1114112, 2147483647}]
Texts(k) == UNION {[1..n -> Alphabet[k]] : n \in 0..MaxLen}
Ops == IF st.stop = "none" THEN UNION {{<<"open", "z", f, t, s>> : s \in Texts(f)} : f \in Kinds, t \in Kinds}
       ELSE IF st.stop = "" THEN {<<"read">>} ELSE {}
Start == Closed
Init == st = Start /\ ret = <<"ok">> /\ op = <<"init">>
Next == \E o \in Ops : Do(o) /\ op' = o
Spec == Init /\ [][Next]_vars
View == st
Emit == PrintT("EDGE " \o ToJson(<<st, op', st'>>))
\* every short text of a kind, converted to everything else
TextOps == {<<"conv", x[1], x[2], x[3]>> : x \in UNION {{<<f, t, s>> : s \in Texts(f)} : f \in Kinds, t \in Kinds}}
TextSpec == Init /\ [][op[1] = "init" /\ \E o \in TextOps : Do(o) /\ op' = o]_vars
\* every short sequence of characters
CharSeqs == UNION {[1..n -> Points] : n \in 1..MaxLen}
CharSpec == Init /\ [][op[1] = "init" /\ \E s \in CharSeqs : st' = [Closed EXCEPT !.src = s] /\ ret' = <<"ok">> /\ op' = <<"chars", s>>]_vars

(* ------------------------------ properties ------------------------------- *)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* what a reader hands out is the conversion of its source
ReaderAgrees == st.stop # "none" => /\ Prefix(st.got, Conv(st.f, st.t, st.src))
                                    /\ st.stop \in {"end", "bad"} => st.got = Conv(st.f, st.t, st.src)
\* the reported cluster is the (only) encoding of the character handed out
ClusterIsEncoding == st.size > 0 =>
    LET c == SubSeq(st.src, st.at + 1, st.at + st.size) d == DecOne(st.f, c) IN
    /\ d[1] = st.size /\ EncOne(st.f, d[2]) = c
    /\ \E k \in 0..Len(st.got) : SubSeq(st.got, Len(st.got) - k + 1, Len(st.got)) \o st.out = EncOne(st.t, d[2])
\* reading ends, and reports the end only there
ReadsEnd == st.stop # "none" => Len(st.got) <= 6 * Len(st.src)
EndIsEnd == st.stop = "end" => st.at = Len(st.src) /\ st.size = 0
Progress == [][op'[1] = "read" => st'.at >= st.at /\ (st'.at + st'.size >= st.at + st.size)]_vars
\* sequences of characters survive every change of encoding
ScalarsOf == st.src
RoundTrip == op[1] = "chars" => \A f \in Kinds : \A t \in Kinds :
    LET x == Conv("u32", f, ScalarsOf) IN
    ((\A i \in DOMAIN ScalarsOf : EncOne("u16", ScalarsOf[i]) # <<>>) =>
        Conv(f, "u32", x) = ScalarsOf /\ Conv(t, f, Conv(f, t, x)) = x)
TextRet == op[1] = "conv" => LET r == ret[2] IN Conv(op[3], op[3], r) = r

(* ------------------------------ traces ----------------------------------- *)
Reset(e) == st' = Start /\ ret' = <<"ok">>
\* at something ill-formed only the stop itself is specified, not the positions reported there;
\* e.left: bytes left allocated after a reset
Match(e) == (IF ret' = <<"zero">> THEN e.r[1] = "zero" ELSE e.r = ret') /\ (e.o[1] = "reset" => e.left <= 0)
=============================================================================

------------------------------- MODULE Lorem -------------------------------
(* Filler text (property C26). st: how many words of the text were used (modulo *)
(* its length): every request goes on where the last one stopped.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, LoremWords
CONSTANTS MaxLen, Skip
VARIABLES st, ret, op
vars == <<st, ret, op>>
N == Len(Words)
W(i) == Words[(i % N) + 1]
Low(c) == c >= 97 /\ c <= 122
Cap(w) == IF Low(w[1]) THEN <<w[1] - 32>> \o Tail(w) ELSE w
Abs(x) == IF x < 0 THEN -x ELSE x
Styles == {"lower", "first", "upper"}
Shown(style, k, w) == IF style = "upper" \/ (style = "first" /\ k = 0) THEN Cap(w) ELSE w
RECURSIVE Join(_, _, _), Size(_, _)
\* the first n words from word i on
Join(style, i, n) == IF n = 0 THEN <<>> ELSE Join(style, i, n - 1) \o (IF n = 1 THEN <<>> ELSE <<32>>) \o Shown(style, n - 1, W(i + n - 1))
Size(i, n) == IF n = 0 THEN 0 ELSE Size(i, n - 1) + Len(W(i + n - 1)) + (IF n = 1 THEN 0 ELSE 1)
RECURSIVE Grow(_, _, _, _)
\* how many words: as many as come closest to the wanted length (the longer text if two are equally close), at least one if any is wanted
Grow(i, best, n, size) ==
    IF size >= best THEN n
    ELSE LET s == size + Len(W(i + n)) + (IF n = 0 THEN 0 ELSE 1) IN
         IF n > 0 /\ s > best /\ best - size < s - best THEN n ELSE Grow(i, best, n + 1, s)
Count(i, best) == Grow(i, best, 0, 0)
Text(style, best, tail) == LET n == Count(st, best) IN st' = (st + n) % N /\ ret' = <<"text", Join(style, st, n) \o tail>>

(* A paragraph: sentences of clauses, chosen at random. What is known about it: its words are the next  *)
(* ones, the first word of each sentence starts with a capital letter and no other word does, it ends   *)
(* with a full stop, and its length is about what was asked for.                                       *)
RECURSIVE Para(_, _, _, _)
\* text t from position p on, the next word being word i and starting a sentence or not: number of the word after the last one, or -1
Para(t, p, i, start) ==
    LET w == IF start THEN Cap(W(i)) ELSE W(i) q == p + Len(w) IN
    IF q > Len(t) + 1 \/ SubSeq(t, p, q - 1) # w \/ q > Len(t) THEN -1
    ELSE IF t[q] = 46 THEN (IF q = Len(t) THEN i + 1 ELSE IF t[q + 1] = 32 THEN Para(t, q + 2, i + 1, TRUE) ELSE -1)
    ELSE IF t[q] = 44 THEN (IF q < Len(t) /\ t[q + 1] = 32 THEN Para(t, q + 2, i + 1, FALSE) ELSE -1)
    ELSE IF t[q] = 32 THEN Para(t, q + 1, i + 1, FALSE) ELSE -1
Slack == 16
IsParagraph(t, best, i) ==
    IF best <= 0 THEN t = <<>>
    ELSE IF best = 1 THEN t \in {<<46>>} \/ Para(t, 1, i, TRUE) > 0
    ELSE Para(t, 1, i, TRUE) > 0 /\ Abs(Len(t) - best) <= Slack
AfterParagraph(t, i) == IF t \in {<<>>, <<46>>} THEN i ELSE Para(t, 1, i, TRUE) % N

Do(o) ==
    CASE o[1] = "text" -> Text(o[2], o[3], <<>>)
      [] o[1] = "title" -> Text("upper", o[2], <<>>)
      [] o[1] = "sentence" -> Text("first", o[2], <<46>>)
      \* the text is part of the operation: only a paragraph may be returned
      [] o[1] = "paragraph" -> IsParagraph(o[3], o[2], st) /\ st' = AfterParagraph(o[3], st) /\ ret' = <<"para", 0>>

Lens == {-1, 0} \cup {x \in 1..MaxLen : x % Skip = 1 % Skip \/ x < 8}
Ops == {<<"text", s, b>> : s \in Styles, b \in Lens} \cup {<<"title", b>> : b \in Lens} \cup {<<"sentence", b>> : b \in Lens}
Start == 0
Init == st = Start /\ ret = <<"ok", 0>> /\ op = <<"init">>
Next == \E o \in Ops : Do(o) /\ op' = o
Spec == Init /\ [][Next]_vars
View == st
Emit == PrintT("EDGE " \o ToJson(<<st, op', st'>>))

(* ------------------------------ properties ------------------------------- *)
\* no other number of words comes closer to the wanted length
Closest == \A best \in 0..MaxLen : LET n == Count(st, best) d(k) == Abs(Size(st, k) - best) IN
    /\ (best > 0) = (n > 0)
    /\ n > 0 => \A k \in 1..(n + 2) : d(n) <= d(k)
LengthIsSize == \A n \in 0..4, s \in Styles : Len(Join(s, st, n)) = Size(st, n)
\* a plain sentence is a paragraph
SentenceIsParagraph == \A best \in 1..MaxLen : LET t == Join("first", st, Count(st, best)) \o <<46>> IN Para(t, 1, st, TRUE) = st + Count(st, best)

(* ------------------------------ traces ----------------------------------- *)
Reset(e) == st' = Start /\ ret' = <<"ok", 0>>
Match(e) == ret' = e.r
=============================================================================

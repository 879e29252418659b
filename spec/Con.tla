-------------------------------- MODULE Con --------------------------------
(* The console (property C27). st.in: the characters that can still be read,  *)
(* st.out: the characters written so far.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Chars, MaxText, MaxOut, MaxIn
VARIABLES st, ret, op
vars == <<st, ret, op>>
NL == 10
Texts == UNION {[1..n -> Chars] : n \in 0..MaxText}
Inputs == UNION {[1..n -> {65, NL}] : n \in 0..MaxIn}
LineLen(t) == LET ends == {i \in 1..Len(t) : t[i] = NL} IN IF ends = {} THEN Len(t) ELSE (CHOOSE i \in ends : \A j \in ends : i <= j) - 1
FirstLine(t) == SubSeq(t, 1, LineLen(t))
AfterLine(t) == LET k == LineLen(t) IN IF k >= Len(t) THEN <<>> ELSE SubSeq(t, k + 2, Len(t))
B(x) == IF x THEN 1 ELSE 0
\* a colour is set with an escape sequence that names it (red 1, green 2, blue 4)
Colour(r, g, b, light) == <<27, 91, 48, IF light = 1 THEN 48 ELSE 49, 59, 51, 48 + b * 4 + g * 2 + r, 109>>
Written(o) ==
    CASE o[1] \in {"write", "writeptr"} -> o[2]
      [] o[1] = "writelen" -> SubSeq(o[2], 1, o[3])
      [] o[1] = "line" -> o[2] \o <<13, 10>>
      [] o[1] = "colour" -> Colour(o[2], o[3], o[4], o[5])
      [] o[1] = "title" -> <<>>
RECURSIVE All(_)
All(os) == IF os = <<>> THEN <<>> ELSE Written(Head(os)) \o All(Tail(os))
Put(t) == st' = [st EXCEPT !.out = @ \o t] /\ ret' = <<"ok", 0>>
Do(o) ==
    CASE o[1] = "read" -> st' = [st EXCEPT !.in = AfterLine(@)] /\ ret' = <<"text", FirstLine(st.in)>>
      \* several writes at once: nothing of them may get lost or change places
      [] o[1] = "all" -> Put(All(o[2]))
      [] OTHER -> Put(Written(o))
Bits == {0, 1}
Writes == {<<n, t>> : n \in {"write", "writeptr", "line", "title"}, t \in Texts} \cup UNION {{<<"writelen", t, k>> : k \in 0..Len(t)} : t \in Texts}
Ops == {<<"read">>} \cup {o \in Writes \cup {<<"colour", r, g, b, 1>> : r \in Bits, g \in Bits, b \in Bits} : Len(st.out) + Len(Written(o)) <= MaxOut}
Start(t) == [in |-> t, out |-> <<>>]
Init == (\E t \in Inputs : st = Start(t)) /\ ret = <<"ok", 0>> /\ op = <<"init">>
Next == \E o \in Ops : Do(o) /\ op' = o
Spec == Init /\ [][Next]_vars
View == st
Emit == PrintT("EDGE " \o ToJson(<<st, op', st'>>))

(* ------------------------------ properties ------------------------------- *)
\* what was written stays, and reading writes nothing
OutputGrows == [][Len(st'.out) >= Len(st.out) /\ SubSeq(st'.out, 1, Len(st.out)) = st.out]_vars
ReadWritesNothing == [][op'[1] = "read" => st'.out = st.out]_vars
WriteReadsNothing == [][op'[1] # "read" => st'.in = st.in]_vars
\* a line is never empty-handed while there is input, and no character is lost
ReadKeepsAll == [][op'[1] = "read" => \/ ret'[2] \o <<NL>> \o st'.in = st.in
                                      \/ ret'[2] = st.in /\ st'.in = <<>>]_vars

(* ------------------------------ traces ----------------------------------- *)
Reset(e) == st' = Start(e.o[2]) /\ ret' = <<"ok", 0>>
Match(e) == ret' = e.r /\ (e.o[1] = "reset" \/ st'.out = st.out \o e.out)
=============================================================================

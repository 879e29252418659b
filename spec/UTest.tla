-------------------------------- MODULE UTest -------------------------------
(* The unit test framework (property C20): a machine that runs test files with a   *)
(* stack of contexts. A node of a test program is <<"case", body>>, <<"cat", body>>*)
(* or <<leaf>>; a body is a sequence of nodes. Leaves:                             *)
(*   ok, bad           TEST_ASSERT that holds / that does not                      *)
(*   caok, cabad       TEST_CASE_ASSERT likewise                                   *)
(*   err, exc, unk     raise Error / Exception / something else                    *)
(*   print             TEST_PRINT                                                  *)
(*   teok, tenone, teexc, tebad   TEST_ERROR around an Error, nothing, an          *)
(*                     Exception, a failing assertion                              *)
(*   txok, txnone, txother, txbad, txcb   TEST_EXCEPTION around the named type,    *)
(*                     nothing, another type, a failing assertion, and with a      *)
(*                     failing check of the caught object                          *)
(* An option is <<"D">>, <<"R">>, <<"F", name>> or <<"X", what>> (not an option).  *)
(* File names are sequences of characters.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS CaseLeaves, FileLeaves, CaseLen, CatLen, FileLen, Names, OptSet, MaxOpts, MaxFiles, Mode
VARIABLES st, ret, op
vars == <<st, ret, op>>

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
IsF(o) == o[1] = "F"
BadOpts(o) == \/ \E i \in DOMAIN o : o[i][1] = "X"
              \/ (\E i \in DOMAIN o : o[i][1] = "D") /\ (\E i \in DOMAIN o : o[i][1] = "R")
Suppressed(o) == ~ \E i \in DOMAIN o : o[i][1] = "D"
Ends(name, f) == Len(f) < Len(name) /\ SubSeq(name, Len(name) - Len(f) + 1, Len(name)) = f /\ name[Len(name) - Len(f)] \in {"/", "\\"}
Selected(o, name) == (\E i \in DOMAIN o : IsF(o[i])) => \E i \in DOMAIN o : IsF(o[i]) /\ (o[i][2] = name \/ Ends(name, o[i][2]))

Begin(o, fs) == [opts |-> o, files |-> fs, i |-> 1, stack |-> <<>>, total |-> 0, passed |-> 0, ftotal |-> 0, fpassed |-> 0,
                 log |-> <<>>, out |-> <<>>, code |-> "run"]
Log(s, p) == [s EXCEPT !.log = Append(@, p)]
Say(s, line) == [s EXCEPT !.out = Append(@, line)]
Push(s, k, p, b) == Log([s EXCEPT !.stack = Append(@, [kind |-> k, path |-> p, body |-> b, pc |-> 1, failed |-> FALSE])], Append(p, 0))
Skip(s) == [s EXCEPT !.stack[Len(s.stack)].pc = @ + 1]
\* leave the innermost context and count what it was
Pop(s) == LET f == Last(s.stack) n == IF f.failed THEN 0 ELSE 1
              s1 == IF f.kind = "case" THEN [s EXCEPT !.total = @ + 1, !.passed = @ + n]
                    ELSE IF f.kind = "file" THEN [s EXCEPT !.ftotal = @ + 1, !.fpassed = @ + n, !.i = @ + 1] ELSE s IN
    [s1 EXCEPT !.stack = Front(s.stack)]
\* a failure: it is reported, every open context has failed, and the innermost one ends
Raise(s, what, kind) ==
    IF Suppressed(s.opts)
    THEN LET s1 == Say(s, <<"err", Len(s.stack), what>>) IN Pop([s1 EXCEPT !.stack = [j \in DOMAIN s.stack |-> [s.stack[j] EXCEPT !.failed = TRUE]]])
    ELSE [s EXCEPT !.code = kind]
Asserts == {"ok", "bad", "teok", "tenone", "teexc", "tebad"}
Outcome(l) == CASE l \in {"ok", "print", "teok", "txok"} -> "pass"
                [] l \in {"bad", "tenone", "tebad", "txnone", "txother", "txbad", "txcb"} -> "assert"
                [] l \in {"err", "err0"} -> "error" [] l \in {"exc", "exc0", "excd", "teexc"} -> "exception" [] l = "unk" -> "unknown" [] OTHER -> "case"
Text(l) == CASE l = "err" -> "boom-e" [] l \in {"exc", "teexc"} -> "boom-x" [] OTHER -> "?"
Node(s, n, p) ==
    LET f == Last(s.stack) k == n[1] IN
    IF k \in {"case", "cat", "caok", "cabad"}
    THEN IF f.kind = "case" THEN Raise(s, "?", "config")
         ELSE Push(Say(Skip(s), <<IF k = "cat" THEN "cat" ELSE "case", Len(s.stack), IF k \in {"caok", "cabad"} THEN <<>> ELSE p>>),
                   IF k = "cat" THEN "cat" ELSE "case", p, IF k = "caok" THEN <<<<"ok">>>> ELSE IF k = "cabad" THEN <<<<"bad">>>> ELSE n[2])
    ELSE IF k \in Asserts /\ f.kind # "case" THEN Raise(s, "?", "config")
    ELSE IF k = "print" THEN Say(Skip(s), <<"info", Len(s.stack), p>>)
    ELSE IF Outcome(k) = "pass" THEN Skip(s)
    ELSE Raise(s, Text(k), Outcome(k))
Step(s) ==
    IF BadOpts(s.opts) THEN [Say(s, <<"err", 0, "?">>) EXCEPT !.code = "usage"]
    ELSE IF s.stack = <<>>
    THEN IF s.i > Len(s.files)
         THEN [Say(Say(s, <<"files", s.fpassed, s.ftotal>>), <<"cases", s.passed, s.total>>) EXCEPT !.code = IF s.fpassed = s.ftotal THEN "pass" ELSE "fail"]
         ELSE IF Selected(s.opts, s.files[s.i][1]) THEN Push(Say(s, <<"file", s.i>>), "file", <<s.i>>, s.files[s.i][2])
         ELSE [Say(s, <<"skip", s.i>>) EXCEPT !.i = @ + 1]
    ELSE LET f == Last(s.stack) IN
         IF f.pc > Len(f.body) THEN Pop(s) ELSE Node(Log(s, Append(f.path, f.pc)), f.body[f.pc], Append(f.path, f.pc))
RECURSIVE RunAll(_)
RunAll(s) == IF s.code # "run" THEN s ELSE RunAll(Step(s))

(* a second, independent account: what a whole program means *)
RECURSIVE NodeFails(_, _), BodyFails(_, _), Cases(_, _), Reached(_, _, _)
Raises(n, k) == \/ n[1] \in {"case", "cat", "caok", "cabad"} /\ k = "case"
                \/ n[1] \in Asserts /\ k # "case"
                \/ n[1] \notin {"case", "cat", "caok", "cabad"} /\ Outcome(n[1]) # "pass"
Reach(b, k) == {j \in DOMAIN b : \A h \in 1..(j - 1) : ~ Raises(b[h], k)}
NodeFails(n, k) == \/ Raises(n, k) \/ n[1] = "cabad" \/ (n[1] \in {"case", "cat"} /\ BodyFails(n[2], n[1]))
BodyFails(b, k) == \E j \in Reach(b, k) : NodeFails(b[j], k)
Sum(S, F(_)) == LET R[T \in SUBSET S] == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN F(x) + R[T \ {x}] IN R[S]
Cases(b, k) == Sum(Reach(b, k), LAMBDA j : IF k = "case" THEN 0 ELSE IF b[j][1] \in {"caok", "cabad", "case"} THEN 1 ELSE IF b[j][1] = "cat" THEN Cases(b[j][2], "cat") ELSE 0)
Reached(b, k, p) == {Append(p, 0)} \cup {Append(p, j) : j \in Reach(b, k)}
    \cup UNION {Reached(b[j][2], b[j][1], Append(p, j)) : j \in {h \in Reach(b, k) : b[h][1] \in {"case", "cat"} /\ k # "case"}}
    \cup UNION {{p \o <<j, 0>>, p \o <<j, 1>>} : j \in {h \in Reach(b, k) : b[h][1] \in {"caok", "cabad"} /\ k # "case"}}
Sel(s) == {i \in DOMAIN s.files : Selected(s.opts, s.files[i][1])}

Done == st.code # "run"
\* when failures are suppressed every run ends with the verdict, the counts and the executed bodies of the whole-program account
Verdict == (Done /\ ~ BadOpts(st.opts) /\ Suppressed(st.opts)) =>
    /\ st.code = IF \E i \in Sel(st) : BodyFails(st.files[i][2], "file") THEN "fail" ELSE "pass"
    /\ st.ftotal = Cardinality(Sel(st))
    /\ st.fpassed = Cardinality({i \in Sel(st) : ~ BodyFails(st.files[i][2], "file")})
    /\ st.total = Sum(Sel(st), LAMBDA i : Cases(st.files[i][2], "file"))
    /\ {st.log[j] : j \in DOMAIN st.log} = UNION {Reached(st.files[i][2], "file", <<i>>) : i \in Sel(st)}
\* without suppression, the first failure ends the run by raising, and a run without failure passes
Loud == (Done /\ ~ BadOpts(st.opts) /\ ~ Suppressed(st.opts)) =>
    ((st.code = "pass") <=> ~ \E i \in Sel(st) : BodyFails(st.files[i][2], "file")) /\ st.code # "fail"
Usage == (Done /\ BadOpts(st.opts)) => st.code = "usage" /\ st.log = <<>>
Nesting == \A j \in DOMAIN st.stack : st.stack[j].kind = (IF j = 1 THEN "file" ELSE st.stack[j].kind) /\ (st.stack[j].kind = "case" => j = Len(st.stack))
Upward == \A j \in DOMAIN st.stack : st.stack[j].failed => \A h \in 1..j : st.stack[h].failed
Counts == st.passed <= st.total /\ st.fpassed <= st.ftotal /\ st.ftotal <= Len(st.files)
Once == \A a, b \in DOMAIN st.log : st.log[a] = st.log[b] => a = b
Ends1 == <>Done

\* a configuration file cannot hold sequences: names and options go by keys there
NameOf(k) == CASE k = "a" -> <<"a">> [] k = "dsa" -> <<"d", "/", "a">> [] k = "dba" -> <<"d", "\\", "a">> [] k = "da" -> <<"d", "a">>
               [] k = "sa" -> <<"/", "a">> [] k = "d" -> <<"d">> [] k = "z" -> <<"z">>
OptOf(k) == IF k \in {"D", "R"} THEN <<k>> ELSE IF k = "noname" THEN <<"X", k>> ELSE <<"F", NameOf(k)>>
UpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
CaseBodies == UpTo({<<l>> : l \in CaseLeaves} \cup {<<"case", <<>>>>, <<"cat", <<>>>>, <<"caok">>}, CaseLen)
CatBodies == UpTo({<<l>> : l \in FileLeaves} \cup {<<"caok">>, <<"cabad">>, <<"case", <<>>>>, <<"case", <<<<"bad">>, <<"ok">>>>>>, <<"cat", <<<<"cabad">>, <<"caok">>>>>>}, CatLen)
FileBodies == UpTo({<<l>> : l \in FileLeaves} \cup {<<"case", b>> : b \in CaseBodies} \cup {<<"cat", b>> : b \in CatBodies}, FileLen)
FewBodies == {<<>>, <<<<"caok">>>>, <<<<"cabad">>, <<"caok">>>>}
Files == IF Mode = "trees" THEN {<<<<Nm, b>>>> : Nm \in {NameOf(k) : k \in Names}, b \in FileBodies}
         ELSE {f \in UpTo({<<Nm, b>> : Nm \in {NameOf(k) : k \in Names}, b \in FewBodies}, MaxFiles) : \A i, j \in DOMAIN f : i # j => f[i][1] # f[j][1]}
Options == UpTo({OptOf(k) : k \in OptSet}, MaxOpts)
Init == \E o \in Options, f \in Files : st = Begin(o, f) /\ ret = <<"ok">> /\ op = <<"init">>
Next == ~ Done /\ st' = Step(st) /\ ret' = ret /\ op' = <<"step">>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* inputs only
Show == op[1] = "init" /\ op' = <<"run", st.opts, st.files>> /\ ret' = ret /\ st' = st
ShowSpec == Init /\ [][Show]_vars
View == vars
Emit == PrintT("EDGE " \o ToJson(<<0, op', 0>>))

Do(o) ==
    CASE o[1] = "run" -> st' = RunAll(Begin(o[2], o[3])) /\ ret' = <<"ran">>
      [] o[1] = "outside" -> st' = st /\ ret' = <<"config", 0>>
Start == Begin(<<>>, <<>>)
Reset(e) == st' = Start /\ ret' = <<"ok">>
Match(e) == /\ e.r = ret'
            /\ ret'[1] = "ran" => e.code = st'.code /\ e.log = st'.log /\ e.out = st'.out
=============================================================================

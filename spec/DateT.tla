-------------------------------- MODULE DateT -------------------------------
(* Date-time values (property C21). A value denotes an instant; instants are       *)
(* <<day, ms>>: days since 1970-01-01 and milliseconds in the day, both in UTC. A  *)
(* zone tells the offset of local time from UTC, in seconds:                       *)
(*   <<"fix", off>>  or                                                            *)
(*   <<"dst", std, dst, <<month, week, weekday, sec>>, <<month, week, weekday, sec>>>>*)
(* with the rules at which summer time starts (in standard time) and ends (in      *)
(* summer time). The fields of a value are those of its instant in local time. A   *)
(* value in UTC is, like every value, held by its fields: it is the value whose    *)
(* local fields read as the UTC time.                                              *)
(* The result of asking for fields that local time skips is left open ("?"), and   *)
(* for fields that occur twice it is either of the two.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, Zone, Span        \* for the model
VARIABLES st, ret, op
vars == <<st, ret, op>>

C == INSTANCE Cal WITH From <- 2970, Days <- 0, y <- 0, m <- 0, d <- 0, w <- 0, n <- 0

DayMs == 86400000
Norm(dd, ms) == <<dd + (ms \div DayMs), ms % DayMs>>
Plus(t, u) == Norm(t[1] + u[1], t[2] + u[2])
Minus(t, u) == Norm(t[1] - u[1], t[2] - u[2])
Shift(t, sec) == LET s == (t[2] \div 1000) + sec IN <<t[1] + (s \div 86400), ((s % 86400) * 1000) + (t[2] % 1000)>>
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
\* the day of rule <<month, week, weekday, sec>> in a year: week 5 means the last one
RuleDay(yy, r) ==
    LET first == C!DaysOf(yy, r[1], 1)
        wd == first + ((r[3] - C!Dow(first)) % 7)
        dd == wd + (7 * (r[2] - 1)) IN
    IF dd >= first + C!MonthLen(yy, r[1]) THEN dd - 7 ELSE dd
At(yy, r, off) == Shift(<<RuleDay(yy, r), 0>>, r[4] - off)
Off(z, t) ==
    IF z[1] = "fix" THEN z[2]
    ELSE LET yy == C!Civil(Shift(t, z[2])[1])[1]
             s == At(yy, z[4], z[2]) e == At(yy, z[5], z[3])
             inDst == IF Less(s, e) THEN ~ Less(t, s) /\ Less(t, e) ELSE ~ Less(t, s) \/ Less(t, e) IN
         IF inDst THEN z[3] ELSE z[2]
Local(z, t) == Shift(t, Off(z, t))                       \* local time of an instant, as <<day, ms>>
Offsets(z) == IF z[1] = "fix" THEN {z[2]} ELSE {z[2], z[3]}
\* the instants whose local time it is
Instants(z, f) == {t \in {Shift(f, 0 - o) : o \in Offsets(z)} : Local(z, t) = f}

Read(f) == LET c == C!Civil(f[1]) s == f[2] \div 1000 IN
    <<c[1], c[2], c[3], s \div 3600, (s \div 60) % 60, s % 60, f[2] % 1000, C!Dow(f[1])>>
Written(a) == <<C!DaysOf(a[1], a[2], a[3]), (((a[4] * 3600) + (a[5] * 60) + a[6]) * 1000) + a[7]>>
Fields(z, v) == IF v = <<>> THEN <<"?">> ELSE Read(Local(z, v))
Known(v) == v # <<>>

Put(a, v) == st' = [st EXCEPT !.v[a] = v] /\ ret' = <<"val", Fields(st.zone, v)>>
PutAny(a, S) == IF S = {} THEN Put(a, <<>>) ELSE \E v \in S : Put(a, v)
Val(r) == st' = st /\ ret' = r
Cmp(a, b) == IF Less(a, b) THEN -1 ELSE IF a = b THEN 0 ELSE 1
Do(o) ==
    LET k == o[1] a == IF Len(o) > 1 THEN o[2] ELSE "" z == st.zone
        src == IF k \in {"reos", "toutc", "tolocal", "copy", "forward", "backward"} THEN st.v[o[3]] ELSE <<>> IN
    CASE k = "from" -> PutAny(a, Instants(z, Written(o[3])))
      [] k \in {"reos", "copy"} -> Put(a, src)
      [] k = "forward" -> Put(a, IF Known(src) THEN Plus(src, o[4]) ELSE <<>>)
      [] k = "backward" -> Put(a, IF Known(src) THEN Minus(src, o[4]) ELSE <<>>)
      [] k = "toutc" -> IF Known(src) THEN PutAny(a, Instants(z, src)) ELSE Put(a, <<>>)
      [] k = "tolocal" -> Put(a, IF Known(src) THEN Local(z, src) ELSE <<>>)
      [] k = "cmp" -> Val(IF Known(st.v[o[2]]) /\ Known(st.v[o[3]]) THEN LET c == Cmp(st.v[o[2]], st.v[o[3]])
                                                                                          n == IF st.v[o[2]][1] >= 0 /\ st.v[o[3]][1] >= 0 THEN <<c, c>> ELSE <<>>   \* the exposed numbers are only in order from 1970 on
                                                                                      IN <<"cmp", c, IF c = 0 THEN 1 ELSE 0>> \o n ELSE <<"any">>)
      [] k = "inject" -> Val(<<"inject", <<1000, 2000, 107, 108, 130, 50, 77, 5>>>>)
Start(z, S) == [zone |-> z, v |-> [s \in S |-> <<0, 0>>]]
Reset(e) == st' = Start(e.o[2], {e.o[3][i] : i \in DOMAIN e.o[3]}) /\ ret' = <<"ok">>
Between(a, t, b) == ~ Less(t, a) /\ ~ Less(b, t)
Same(e, r) == IF r[1] = "val" /\ r[2] = <<"?">> THEN e[1] = "val" ELSE IF r[1] = "any" THEN e[1] = "cmp" ELSE IF r[1] = "cmp" THEN SubSeq(e, 1, Len(r)) = r ELSE e = r
Match(e) == Same(e.r, ret')
\* the current time lies between the clock readings around the call; it cannot be predicted
Now(e) == LET z == st.zone k == e.o[1] IN
    \E v \in Instants(z, Written(e.r[2])) :
       /\ Between(e.t0, IF k = "now" THEN v ELSE Local(z, v), e.t1)
       /\ Read(Local(z, v)) = e.r[2]
       /\ st' = [st EXCEPT !.v[e.o[2]] = v] /\ ret' = e.r

(* ------------------------------- the model ------------------------------- *)
Zones(k) == CASE k = "utc" -> <<"fix", 0>> [] k = "east" -> <<"fix", 20700>> [] k = "west" -> <<"fix", -43200>>
              [] k = "north" -> <<"dst", -18000, -14400, <<3, 2, 0, 7200>>, <<11, 1, 0, 7200>>>>
              [] k = "south" -> <<"dst", 36000, 39600, <<10, 1, 0, 7200>>, <<4, 1, 0, 10800>>>>
              [] k = "half" -> <<"dst", 37800, 39600, <<10, 1, 0, 7200>>, <<4, 5, 0, 7200>>>>
\* walk through two years in steps of half an hour and 1 ms
Init == st = [zone |-> Zones(Zone), v |-> [s \in Slots |-> <<10957, 0>>]] /\ ret = <<"ok">> /\ op = <<"init">>
Next == \E s \in Slots :
    /\ st.v[s][1] < 10957 + Span
    /\ \E u \in {<<0, 1799999>>, <<0, 1800000>>} : op' = <<"forward", s, s, u>> /\ Do(op')
Spec == Init /\ [][Next]_vars
View == st
Emit == PrintT("EDGE " \o ToJson(<<st, op', st'>>))
T == {st.v[s] : s \in Slots}
ReadWrite == \A t \in T : Written(Read(t)) = t
\* local time determines the instant except at the end of summer time
Local2 == \A t \in T : t \in Instants(st.zone, Local(st.zone, t)) /\ Cardinality(Instants(st.zone, Local(st.zone, t))) \in {1, 2}
FixedIsExact == st.zone[1] = "fix" => \A t \in T : Instants(st.zone, Local(st.zone, t)) = {t}
\* local to UTC and back is the identity wherever the UTC reading exists
RoundTrip == \A t \in T : \A u \in Instants(st.zone, t) : Local(st.zone, u) = t
Arith == \A t \in T : \A u \in {<<0, 1>>, <<0, 1000>>, <<3, 86399999>>, <<20000, 7>>} : Minus(Plus(t, u), u) = t /\ Less(t, Plus(t, u))
=============================================================================

-------------------------------- MODULE Lazy --------------------------------
(* Lazy sequences over changing sources (property C09). src: contents of the    *)
(* sources; lazy[v]: the expression variable v is bound to. An expression is     *)
(* not computed before it is read, except that a forced evaluation takes its     *)
(* elements when it is created and does not depend on the source any more.       *)
EXTENDS SeqAlg, Json
CONSTANTS Srcs, Vars, SrcVals, MaxLen, Depth
VARIABLES st, ret, op
vars == <<st, ret, op>>

\* reading needs no calculation: containers, and what passes their elements on. Evaluating such a sequence
\* gives a reference to it, evaluating any other takes its elements. (Pairs, ranges, dictionaries and groups
\* are shown as numbers through a function, so they count as calculated here.)
RECURSIVE Evald(_)
Evald(e) ==
    CASE e[1] \in {"src", "list", "array", "sorted", "iter", "ptrlist", "empty", "reverse"} -> TRUE
      [] e[1] \in {"take", "skip", "repeat"} -> Evald(e[3])
      [] e[1] = "copy" -> Evald(e[2])
      [] e[1] = "concat" -> Evald(e[2]) /\ Evald(e[3])
      [] OTHER -> FALSE
\* creating it calls none of the functions it is made of
RECURSIVE Waits(_)
Waits(e) ==
    CASE e[1] \in {"src", "list", "var", "empty"} -> TRUE
      [] e[1] \in {"select", "where", "take", "skip", "repeat"} -> Waits(e[3])
      [] e[1] \in {"distinct", "copy", "findtype"} -> Waits(e[2])
      [] e[1] \in {"concat", "pairwise"} -> Waits(e[2]) /\ Waits(e[3])
      [] OTHER -> FALSE
\* replaces variables by what they are bound to and forced parts by their elements
RECURSIVE Bind(_)
Bind(e) ==
    CASE e[1] = "var" -> st.lazy[e[2]]
      [] e[1] = "force" -> <<"list", Den(Bind(e[2]), st.src)>>
      [] e[1] \in {"select", "where", "take", "skip", "repeat", "selectmany", "groupby"} -> <<e[1], e[2], Bind(e[3])>>
      [] e[1] = "evaluate" -> LET b == Bind(e[2]) IN IF Evald(b) THEN b ELSE <<"list", Den(b, st.src)>>
      [] e[1] \in {"distinct", "reverse", "orderself", "orderdesc", "orderkeyneg", "copy", "findtype", "cast"} -> <<e[1], Bind(e[2])>>
      [] e[1] \in {"concat", "pairwise", "intersect", "except", "union"} -> <<e[1], Bind(e[2]), Bind(e[3])>>
      [] OTHER -> e

SetSrc(a, s) == st' = [st EXCEPT !.src[a] = s] /\ ret' = <<"ok", 0>>
\* the number is 1 when functions of the program were called
BindVar(v, e) == /\ st' = [st EXCEPT !.lazy[v] = Bind(e)]
                 /\ ret' \in IF Waits(e) THEN {<<"ok", 0>>} ELSE {<<"ok", 0>>, <<"ok", 1>>}
Read(v) == st' = st /\ LET s == Den(st.lazy[v], st.src) IN
    ret' \in IF Evald(st.lazy[v]) THEN {<<"seq", s>>} ELSE {<<"seq", s>>, <<"seqcalc", s>>}
\* moving a sequence leaves the empty one behind
MoveVar(v, w) == st' = [st EXCEPT !.lazy[w] = <<"empty">>, !.lazy[v] = st.lazy[w]] /\ ret' = <<"ok", 0>>
Eval(e) == st' = st /\ ret' = <<"seq", Den(Bind(e), st.src)>>
AggOf(a, e) == st' = st /\ ret' = Agg(a, Den(Bind(e), st.src))
Do(o) ==
    CASE o[1] = "set" -> SetSrc(o[2], o[3])
      [] o[1] = "bind" -> BindVar(o[2], o[3])
      [] o[1] \in {"movebind", "movenew"} -> MoveVar(o[2], o[3])
      [] o[1] = "read" -> Read(o[2])
      [] o[1] = "eval" -> Eval(o[2])
      [] o[1] = "agg" -> AggOf(o[2], o[3])

Contents == UNION {[1..n -> SrcVals] : n \in 0..MaxLen}
A == <<"src", "A">>
E1 == Apply1(A, <<"src", "B">>)
E2 == UNION {Apply1(e, <<"src", "B">>) : e \in E1}
Exprs == IF Depth = 1 THEN E1 ELSE E1 \cup E2
Ops == {<<"set", a, c>> : a \in Srcs, c \in Contents} \cup {<<"eval", e>> : e \in Exprs}
  \cup {<<"agg", a, A>> : a \in Aggs} \cup {<<"agg", a, <<"where", "odd", A>>>> : a \in Aggs}
Start == [src |-> [a \in Srcs |-> <<>>], lazy |-> [v \in Vars |-> <<"empty">>]]
Init == st = Start /\ ret = <<"ok", 0>> /\ op = <<"init">>
Next == \E o \in Ops : Do(o) /\ op' = o
Spec == Init /\ [][Next]_vars
View == st
Emit == PrintT("EDGE " \o ToJson(<<st, op', st'>>))

(* ------------------------------ properties ------------------------------- *)
AlgebraLaws == Laws(st.src["A"], st.src["B"])
ReadsChangeNothing == [][op'[1] \in {"read", "eval", "agg"} => st' = st]_vars
\* operators compose: reading an expression built on a variable is the operator applied to what the variable reads
ForceIsCopy == \A e \in E1 : Den(<<"force", e>>, st.src) = Den(e, st.src)

(* ------------------------------ traces ----------------------------------- *)
Reset(e) == st' = Start /\ ret' = <<"ok", 0>>
\* e.src: contents of the sources afterwards
Match(e) == ret' = e.r /\ (e.o[1] = "reset" => e.left <= 0) /\ \A a \in Srcs : e.src[a] = st'.src[a]
=============================================================================

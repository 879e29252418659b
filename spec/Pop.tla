--------------------------------- MODULE Pop --------------------------------
(* Dependency ordering (property C11). Items are 0..n-1, deps a set of pairs      *)
(* <<a, b>>: a depends on b. Nodes are sets of items: single items, or the        *)
(* classes given for class-wise ordering. comps is the resulting sequence of      *)
(* components, each a set of nodes. Any sequence that is a correct ordering is    *)
(* allowed: Correct says which those are.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN
VARIABLES st, ret, op
vars == <<st, ret, op>>

Items(n) == 0..(n - 1)
Singles(n) == {{i} : i \in Items(n)}
\* cls[i + 1] is the class of item i, -1 for none
Classes(n, cls) == {{j \in Items(n) : cls[j + 1] = cls[i + 1]} : i \in {k \in Items(n) : cls[k + 1] >= 0}}
                   \cup {{i} : i \in {k \in Items(n) : cls[k + 1] < 0}}
\* the relation induced on nodes
Induced(nodes, deps) == {<<x, y>> \in nodes \X nodes : \E d \in deps : d[1] \in x /\ d[2] \in y}
RECURSIVE ReachAcc(_, _, _)
ReachAcc(rel, front, seen) ==
    LET nxt == {p[2] : p \in {q \in rel : q[1] \in front}} \ seen IN
    IF nxt = {} THEN seen ELSE ReachAcc(rel, nxt, seen \cup nxt)
Reach(rel, x) == ReachAcc(rel, {x}, {x})
Correct(nodes, rel, comps) ==
    LET reach == [x \in nodes |-> Reach(rel, x)]
        at == [x \in nodes |-> {i \in DOMAIN comps : x \in comps[i]}] IN
    /\ \A x \in nodes : Cardinality(at[x]) = 1
    /\ \A i \in DOMAIN comps : comps[i] # {} /\ comps[i] \subseteq nodes
    /\ \A x, y \in nodes : (at[x] = at[y]) = (y \in reach[x] /\ x \in reach[y])
    /\ \A p \in rel : \A i \in at[p[1]], j \in at[p[2]] : j <= i

New == [phase |-> "new", nodes |-> {}, rel |-> {}, comps |-> <<>>]
Pairs(es) == {<<es[i][1], es[i][2]>> : i \in DOMAIN es}
\* how: "group", "func", "array", "sorted", "strings", "pointers" or "sub" (class-wise)
InitWith(how, n, es, cls) ==
    LET known == \A i \in DOMAIN es : es[i][1] < n /\ es[i][2] < n
        nodes == IF how = "sub" THEN Classes(n, cls) ELSE Singles(n)
        deps == Pairs(es) IN
    IF st.nodes # {} \/ ~known THEN st' = st /\ ret' = <<"err", 0>>
    ELSE st' = [phase |-> "init", nodes |-> nodes, rel |-> Induced(nodes, deps), comps |-> <<>>] /\ ret' = <<"ok", 0>>
Renew == st' = New /\ ret' = <<"ok", 0>>
CanSort == st.comps = <<>>
SortTo(c) == IF CanSort THEN st' = [st EXCEPT !.phase = "sorted", !.comps = c] /\ ret' = <<"ok", 0>>
             ELSE st' = st /\ ret' = <<"err", 0>>
(* Kosaraju's algorithm as the library runs it, on nodes 1..n in a fixed order: the depth-first       *)
(* post-order of the reversed relation gives the order in which components are collected.            *)
RECURSIVE Visit(_, _, _), VisitAll(_, _, _)
\* acc = [seen, order]; outs of x: those that depend on x
Visit(rel, x, acc) == IF x \in acc.seen THEN acc ELSE
    LET r == VisitAll(rel, {p[1] : p \in {q \in rel : q[2] = x}}, [acc EXCEPT !.seen = @ \cup {x}]) IN [r EXCEPT !.order = Append(@, x)]
VisitAll(rel, xs, acc) == IF xs = {} THEN acc ELSE LET x == CHOOSE y \in xs : TRUE IN VisitAll(rel, xs \ {x}, Visit(rel, x, acc))
RECURSIVE Collect(_, _, _)
Collect(rel, order, comps) == IF order = <<>> THEN comps ELSE
    LET x == order[Len(order)]
        rest == SubSeq(order, 1, Len(order) - 1)
        done == UNION {comps[i] : i \in DOMAIN comps} IN
    IF x \in done THEN Collect(rel, rest, comps)
    ELSE Collect(rel, rest, Append(comps, ReachAcc({p \in rel : p[2] \notin done}, {x}, {x})))
Kosaraju(nodes, rel) == Collect(rel, VisitAll(rel, nodes, [seen |-> {}, order |-> <<>>]).order, <<>>)

\* in the model a sort gives Kosaraju's result, shown to be correct below; traces may give any correct one
SortStep == SortTo(Kosaraju(st.nodes, st.rel))
Do(o) ==
    CASE o[1] = "new" -> Renew
      [] o[1] = "init" -> InitWith(o[2], o[3], o[4], o[5])
      [] o[1] = "sort" -> SortStep
RECURSIVE SetToSeq(_)
SetToSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE y \in s : TRUE IN <<x>> \o SetToSeq(s \ {x})
Graphs(n) == {SetToSeq(e) : e \in SUBSET (Items(n) \X Items(n))}
ClassMaps(n) == [1..n -> (-1)..1]
Ops == {<<"sort">>, <<"new">>} \cup (IF st.phase # "new" THEN {<<"init", "group", 1, <<>>, <<-1>>>>}
        ELSE UNION {{<<"init", "group", n, g, [i \in 1..n |-> -1]>> : g \in Graphs(n)} : n \in 0..MaxN}
             \cup UNION {{<<"init", "sub", n, g, c>> : g \in Graphs(n), c \in ClassMaps(n)} : n \in 0..(MaxN - 1)})
Init == st = New /\ ret = <<"ok", 0>> /\ op = <<"init0">>
Next == \E o \in Ops : Do(o) /\ op' = o
Spec == Init /\ [][Next]_vars
View == st
Emit == IF op'[1] = "init" /\ st.phase = "new" THEN PrintT("EDGE " \o ToJson(<<0, op', 0>>)) ELSE TRUE
InitOnly == Init /\ [][op[1] = "init0" /\ \E o \in {x \in Ops : x[1] = "init"} : Do(o) /\ op' = o]_vars

(* ------------------------------ properties ------------------------------- *)
SortIsCorrect == st.phase = "sorted" => Correct(st.nodes, st.rel, st.comps)
Partition == \A x, y \in st.nodes : x = y \/ x \cap y = {}
SecondTimeFails == [][(op'[1] = "init" /\ st.nodes # {} => ret'[1] = "err") /\ (op'[1] = "sort" /\ st.comps # <<>> => ret'[1] = "err" /\ st' = st)]_vars

(* ------------------------------ traces ----------------------------------- *)
\* e.nodes: items, dependencies and dependents of every node; e.comps: node numbers of the components;
\* e.at: the component every node says it belongs to
AsSet(s) == {s[i] : i \in DOMAIN s}
NodeSet(e, k) == AsSet(e.nodes[k + 1].items)
NoDup(s) == Cardinality(AsSet(s)) = Len(s)
CompsOf(e) == [i \in DOMAIN e.comps |-> {NodeSet(e, e.comps[i][j]) : j \in DOMAIN e.comps[i]}]
TraceDo(e) == IF e.o[1] = "sort" THEN SortTo(IF CanSort /\ e.r[1] = "ok" THEN CompsOf(e) ELSE st.comps) ELSE Do(e.o)
NodesAgree(e) ==
    /\ Len(e.nodes) = Cardinality(st'.nodes)
    /\ {AsSet(e.nodes[k].items) : k \in DOMAIN e.nodes} = st'.nodes
    /\ \A k \in DOMAIN e.nodes : LET x == AsSet(e.nodes[k].items) IN
        /\ NoDup(e.nodes[k].items)
        /\ {NodeSet(e, y) : y \in AsSet(e.nodes[k].ins)} = {p[2] : p \in {q \in st'.rel : q[1] = x}}
        /\ {NodeSet(e, y) : y \in AsSet(e.nodes[k].outs)} = {p[1] : p \in {q \in st'.rel : q[2] = x}}
CompsAgree(e) ==
    /\ \A i \in DOMAIN e.comps : NoDup(e.comps[i])
    /\ CompsOf(e) = st'.comps
    /\ st'.phase = "sorted" => Correct(st'.nodes, st'.rel, st'.comps) /\ \A k \in DOMAIN e.nodes : NodeSet(e, k - 1) \in st'.comps[e.at[k] + 1]
\* a dependency between two classes is reported once, however many of their members depend on each other
ClassesOnce(e) == e.o[1] = "init" /\ e.o[2] = "sub" /\ e.r[1] = "ok" => \A k \in DOMAIN e.nodes : NoDup(e.nodes[k].ins) /\ NoDup(e.nodes[k].outs)
\* items keep their order as nodes when there are no classes
OrderKept(e) == e.o[1] = "init" /\ e.o[2] # "sub" /\ e.r[1] = "ok" => \A k \in DOMAIN e.nodes : e.nodes[k].items = <<k - 1>>
Reset(e) == st' = New /\ ret' = <<"ok", 0>>
Match(e) == ret' = e.r /\ NodesAgree(e) /\ CompsAgree(e) /\ OrderKept(e) /\ ClassesOnce(e)
=============================================================================

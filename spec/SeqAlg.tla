------------------------------- MODULE SeqAlg -------------------------------
(* The algebra of the lazy operators: Den(e, src) is the sequence of integers    *)
(* an expression denotes, src giving the contents of the named sources.         *)
(* Expressions are what the programs contain, e.g.                              *)
(*   <<"take", 2, <<"where", "odd", <<"list", <<1, 2, 3>>>>>>>>                 *)
(* Pairs are shown as numbers: key * 100 + value.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Fn(f, x) == CASE f = "inc" -> x + 1 [] f = "neg" -> 0 - x [] f = "mod3" -> x % 3 [] f = "zero" -> 0 [] f = "ten" -> x * 10 [] f = "id" -> x
Pr(p, x) == CASE p = "odd" -> x % 2 = 1 [] p = "gt1" -> x > 1 [] p = "none" -> FALSE [] p = "all" -> TRUE
Map(f, s) == [i \in DOMAIN s |-> Fn(f, s[i])]
Filter(p, s) == SelectSeq(s, LAMBDA x : Pr(p, x))
Min2(a, b) == IF a < b THEN a ELSE b
Take(n, s) == IF n <= 0 THEN <<>> ELSE SubSeq(s, 1, Min2(n, Len(s)))
Skip(n, s) == IF n <= 0 THEN s ELSE SubSeq(s, n + 1, Len(s))
RECURSIVE Repeat(_, _)
Repeat(n, s) == IF n <= 0 THEN <<>> ELSE s \o Repeat(n - 1, s)
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Distinct(_)
Distinct(s) == IF s = <<>> THEN <<>> ELSE
    LET r == Distinct(SubSeq(s, 1, Len(s) - 1)) IN IF s[Len(s)] \in Range(r) THEN r ELSE Append(r, s[Len(s)])
Reverse(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
In(s, t) == SelectSeq(s, LAMBDA x : x \in Range(t))
NotIn(s, t) == SelectSeq(s, LAMBDA x : x \notin Range(t))
Zip(s, t) == [i \in 1..Min2(Len(s), Len(t)) |-> s[i] * 100 + t[i]]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
\* ascending order of integers (insertion)
RECURSIVE Insert(_, _), Sorted(_)
Insert(x, s) == IF s = <<>> THEN <<x>> ELSE IF x <= Head(s) THEN <<x>> \o s ELSE <<Head(s)>> \o Insert(x, Tail(s))
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(Head(s), Sorted(Tail(s)))
\* what SelectMany's function gives for one element
Many(f, x) == CASE f = "twice" -> <<x, x + 10>> [] f = "count" -> [i \in 1..(x % 3) |-> x] [] f = "nothing" -> <<>>
\* groups in order of first appearance of their key; a group is shown as 1000 + key followed by its members
Grouped(f, s) == LET ks == Distinct(Map(f, s)) IN
    Flat([i \in DOMAIN ks |-> <<1000 + ks[i]>> \o SelectSeq(s, LAMBDA x : Fn(f, x) = ks[i])])
\* keys and values given alternately
Keys(p) == Sorted(Distinct([i \in 1..(Len(p) \div 2) |-> p[2 * i - 1]]))
ValsOf(p, k) == LET n == Len(p) \div 2 IN
    Flat([i \in 1..n |-> IF p[2 * i - 1] = k THEN <<p[2 * i]>> ELSE <<>>])
DictSeq(p) == [i \in DOMAIN Keys(p) |-> LET v == ValsOf(p, Keys(p)[i]) IN Keys(p)[i] * 100 + v[Len(v)]]
GroupSeq(p) == Flat([i \in DOMAIN Keys(p) |-> LET v == ValsOf(p, Keys(p)[i]) IN [j \in DOMAIN v |-> Keys(p)[i] * 100 + v[j]]])

RECURSIVE Den(_, _)
Den(e, src) ==
    CASE e[1] \in {"list", "array", "iter", "ptrlist"} -> e[2]
      [] e[1] = "src" -> src[e[2]]
      [] e[1] = "empty" -> <<>>
      [] e[1] = "sorted" -> Sorted(e[2])
      [] e[1] = "dict" -> DictSeq(e[2])
      [] e[1] = "group" -> GroupSeq(e[2])
      [] e[1] = "range" -> [i \in 1..e[3] |-> e[2] + i - 1]
      [] e[1] = "select" -> Map(e[2], Den(e[3], src))
      [] e[1] = "where" -> Filter(e[2], Den(e[3], src))
      [] e[1] = "take" -> Take(e[2], Den(e[3], src))
      [] e[1] = "skip" -> Skip(e[2], Den(e[3], src))
      [] e[1] = "repeat" -> Repeat(e[2], Den(e[3], src))
      [] e[1] = "distinct" -> Distinct(Den(e[2], src))
      [] e[1] = "reverse" -> Reverse(Den(e[2], src))
      [] e[1] = "concat" -> Den(e[2], src) \o Den(e[3], src)
      [] e[1] = "pairwise" -> Zip(Den(e[2], src), Den(e[3], src))
      [] e[1] = "intersect" -> Distinct(In(Den(e[2], src), Den(e[3], src)))
      [] e[1] = "except" -> Distinct(NotIn(Den(e[2], src), Den(e[3], src)))
      [] e[1] = "union" -> Distinct(Den(e[2], src) \o Den(e[3], src))
      [] e[1] = "orderself" -> Sorted(Den(e[2], src))
      [] e[1] \in {"orderdesc", "orderkeyneg"} -> Reverse(Sorted(Den(e[2], src)))
      [] e[1] \in {"evaluate", "force", "copy"} -> Den(e[2], src)
      [] e[1] = "selectmany" -> LET s == Den(e[3], src) IN Flat([i \in DOMAIN s |-> Many(e[2], s[i])])
      [] e[1] = "groupby" -> Grouped(e[2], Den(e[3], src))
      [] e[1] = "findtype" -> Filter("odd", Den(e[2], src))
      [] e[1] = "cast" -> Den(e[2], src)

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
\* a fold that is neither commutative nor associative shows the order of application
RECURSIVE FoldL(_, _)
FoldL(a, s) == IF s = <<>> THEN a ELSE FoldL((a * 3 - Head(s)) % 1009, Tail(s))
B(b) == IF b THEN 1 ELSE 0
Agg(a, s) ==
    LET ne(v) == IF s = <<>> THEN <<"err", 0>> ELSE <<"v", v>> IN
    CASE a = "count" -> <<"v", Len(s)>>
      [] a = "isempty" -> <<"v", B(s = <<>>)>>
      [] a = "first" -> IF s = <<>> THEN <<"err", 0>> ELSE <<"v", s[1]>>
      [] a = "last" -> IF s = <<>> THEN <<"err", 0>> ELSE <<"v", s[Len(s)]>>
      [] a = "firstor" -> <<"v", IF s = <<>> THEN 77 ELSE s[1]>>
      [] a = "lastor" -> <<"v", IF s = <<>> THEN 77 ELSE s[Len(s)]>>
      [] a = "firstor2" -> <<"v", IF s = <<>> THEN 2 ELSE s[1]>>
      [] a = "lastor2" -> <<"v", IF s = <<>> THEN 2 ELSE s[Len(s)]>>
      [] a = "max" -> IF s = <<>> THEN <<"err", 0>> ELSE <<"v", CHOOSE x \in Range(s) : \A y \in Range(s) : y <= x>>
      [] a = "min" -> IF s = <<>> THEN <<"err", 0>> ELSE <<"v", CHOOSE x \in Range(s) : \A y \in Range(s) : y >= x>>
      [] a = "fold" -> IF s = <<>> THEN <<"err", 0>> ELSE <<"v", FoldL(s[1], Tail(s))>>
      [] a = "foldfrom" -> <<"v", FoldL(5, s)>>
      [] a = "allodd" -> <<"v", B(\A x \in Range(s) : Pr("odd", x))>>
      [] a = "anyodd" -> <<"v", B(\E x \in Range(s) : Pr("odd", x))>>
      [] a = "allgt1" -> <<"v", B(\A x \in Range(s) : Pr("gt1", x))>>
      [] a = "anygt1" -> <<"v", B(\E x \in Range(s) : Pr("gt1", x))>>
Aggs == {"count", "isempty", "first", "last", "firstor", "lastor", "firstor2", "lastor2", "max", "min", "fold", "foldfrom", "allodd", "anyodd", "allgt1", "anygt1"}

\* operators applied to e; o is another operand
Apply1(e, o) == {<<"select", f, e>> : f \in {"inc", "neg", "mod3"}} \cup {<<"where", p, e>> : p \in {"odd", "gt1", "none"}}
  \cup {<<n, k, e>> : n \in {"take", "skip", "repeat"}, k \in 0..2}
  \cup {<<n, e>> : n \in {"distinct", "reverse", "orderself", "orderdesc", "orderkeyneg", "evaluate", "force", "copy", "findtype", "cast"}}
  \cup {<<n, e, o>> : n \in {"concat", "pairwise", "intersect", "except", "union"}}
  \cup {<<n, o, e>> : n \in {"concat", "pairwise", "intersect", "except", "union"}}
  \cup {<<"selectmany", f, e>> : f \in {"twice", "count"}} \cup {<<"groupby", "mod3", e>>}

(* laws that tie the definitions together, checked by TLC for every small s and t *)
IsPerm(s, t) == Len(s) = Len(t) /\ \A x \in Range(s) \cup Range(t) :
    Cardinality({i \in DOMAIN s : s[i] = x}) = Cardinality({i \in DOMAIN t : t[i] = x})
Laws(s, t) ==
    /\ \A n \in 0..4 : Take(n, s) \o Skip(n, s) = s /\ Len(Repeat(n, s)) = n * Len(s)
    /\ Reverse(Reverse(s)) = s /\ Reverse(s \o t) = Reverse(t) \o Reverse(s)
    /\ Range(Distinct(s)) = Range(s) /\ Len(Distinct(s)) = Cardinality(Range(s)) /\ Distinct(Distinct(s)) = Distinct(s)
    /\ IsPerm(Sorted(s), s) /\ \A i \in 1..(Len(s) - 1) : Sorted(s)[i] <= Sorted(s)[i + 1]
    /\ IsPerm(In(s, t) \o NotIn(s, t), s)
    /\ Len(Zip(s, t)) = Min2(Len(s), Len(t))
    /\ Map("inc", s \o t) = Map("inc", s) \o Map("inc", t) /\ Filter("odd", s \o t) = Filter("odd", s) \o Filter("odd", t)
    /\ IsPerm(SelectSeq(Grouped("mod3", s), LAMBDA x : x < 1000), s)
    /\ (s # <<>>) => Agg("max", s)[2] = Sorted(s)[Len(s)] /\ Agg("min", s)[2] = Sorted(s)[1]
    /\ Agg("fold", s \o t) = IF s = <<>> THEN Agg("fold", t) ELSE <<"v", FoldL(Agg("fold", s)[2], t)>>
=============================================================================

------------------------------- MODULE Values -------------------------------
(* The values parsers return, and what each output format keeps of them.     *)
(* A value is built bottom-up on a stack: leaves are pushed, empty sequences *)
(* and mappings are pushed, and the value on top is moved into the container *)
(* below it.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS MaxOps,       \* building steps
          MaxStack,     \* containers open at once
          Rich          \* TRUE: all kinds; FALSE: one representative of each

VARIABLES stack, ops, leaves, fin
vars == <<stack, ops, leaves, fin>>

(* ---- keys: strings, integers, none, and (nested) tuples of these ---- *)
KStr(s) == [k |-> "str", s |-> s, i |-> 0, v |-> <<>>]
KInt(i) == [k |-> "int", s |-> "", i |-> i, v |-> <<>>]
KNone == [k |-> "none", s |-> "", i |-> 0, v |-> <<>>]
KTup(items) == [k |-> "tup", s |-> "", i |-> 0, v |-> items]
AtomKey(sp, i) == KTup(<<KStr(sp), KInt(i)>>)

Keys == IF Rich
  THEN {KStr("a"), KStr("b b"), KStr("Ar"), KInt(7), KInt(-2), KNone, AtomKey("Si", 1), AtomKey("Si", 11),
        AtomKey("Fe:up", 1), KTup(<<KStr("Si"), KStr("Si")>>), KTup(<<KStr("Si"), KStr("C"), KStr("Si")>>),
        KTup(<<KInt(3), KInt(4)>>), KTup(<<AtomKey("Si", 1), AtomKey("C", 2)>>), KTup(<<AtomKey("Si", 1), AtomKey("Si", 2)>>)}
  ELSE {KStr("a"), KInt(7), KNone, AtomKey("Si", 1), KTup(<<AtomKey("Si", 1), AtomKey("C", 2)>>)}

\* JSON keys: tuples (and tuples of tuples) joined by underscores
RECURSIVE KeyText(_)
KeyText(key) == CASE key.k = "str" -> key.s
                  [] key.k = "int" -> ToString(key.i)
                  [] key.k = "none" -> "null"
                  [] key.k = "tup" -> FoldLeft(LAMBDA acc, x : IF acc = "" THEN KeyText(x) ELSE acc \o "_" \o KeyText(x), "", key.v)

(* ---- values ---- *)
Kinds == IF Rich THEN {"str", "int", "float", "bool", "complex", "none"} ELSE {"str", "float", "complex"}
Seqs == {"list", "tuple"}
Maps == IF Rich THEN {"dict", "defaultdict"} ELSE {"dict"}
Leaf(k, n) == [t |-> "leaf", kind |-> k, n |-> n]
Seq_(k, items) == [t |-> "seq", kind |-> k, items |-> items]
Map_(k, items) == [t |-> "map", kind |-> k, items |-> items]

(* What a document holds: leaves by number, complex numbers as two reals in JSON. *)
RECURSIVE InJson(_)
InJson(v) == CASE v.t = "leaf" -> IF v.kind = "complex"
                                  THEN Map_("dict", << <<KStr("real"), [v EXCEPT !.kind = "re"]>>, <<KStr("imag"), [v EXCEPT !.kind = "im"]>> >>)
                                  ELSE v
               [] v.t = "seq" -> Seq_("list", [i \in DOMAIN v.items |-> InJson(v.items[i])])
               [] v.t = "map" -> Map_("dict", [i \in DOMAIN v.items |-> <<KStr(KeyText(v.items[i][1])), InJson(v.items[i][2])>>])
\* YAML keeps keys and numbers, sequences as lists and mappings as plain mappings
RECURSIVE InYaml(_)
InYaml(v) == CASE v.t = "leaf" -> v
               [] v.t = "seq" -> Seq_("list", [i \in DOMAIN v.items |-> InYaml(v.items[i])])
               [] v.t = "map" -> Map_("dict", [i \in DOMAIN v.items |-> <<v.items[i][1], InYaml(v.items[i][2])>>])

\* Testing mode: one entry a scalar, named by the way to it (places in a sequence count from 0)
RECURSIVE Way(_, _)
WayText(key) == IF key.k = "none" THEN "None" ELSE KeyText(key)
Way(v, name) == CASE v.t = "leaf" -> IF v.kind = "complex"
                                     THEN << <<KStr(name \o "_real"), [v EXCEPT !.kind = "re"]>>, <<KStr(name \o "_imag"), [v EXCEPT !.kind = "im"]>> >>
                                     ELSE << <<KStr(name), v>> >>
                  [] v.t = "seq" -> FoldLeft(LAMBDA acc, i : acc \o Way(v.items[i], name \o "_" \o ToString(i - 1)), <<>>, [i \in DOMAIN v.items |-> i])
                  [] v.t = "map" -> FoldLeft(LAMBDA acc, x : acc \o Way(x[2], name \o "_" \o WayText(x[1])), <<>>, v.items)
TopWay(x) == IF x[2].t = "leaf" /\ x[2].kind # "complex" THEN << <<IF x[1].k = "tup" THEN KStr(KeyText(x[1])) ELSE x[1], x[2]>> >>
             ELSE Way(x[2], KeyText(x[1]))
FlatMap(v) == Map_("dict", FoldLeft(LAMBDA acc, x : acc \o TopWay(x), <<>>, v.items))
\* a result, or several, whose outermost names are names
Runs(v) == IF v.t = "map" THEN <<v>> ELSE IF v.t = "seq" THEN v.items ELSE <<>>
Flattens(v) == \/ v.t = "map" /\ \A i \in DOMAIN v.items : v.items[i][1].k # "none"
               \/ v.t = "seq" /\ \A j \in DOMAIN v.items : v.items[j].t = "map" /\ \A i \in DOMAIN v.items[j].items : v.items[j].items[i][1].k # "none"
Flat(v) == IF v.t = "map" THEN FlatMap(v) ELSE Seq_("list", [j \in DOMAIN v.items |-> FlatMap(v.items[j])])

RECURSIVE Count(_)
Count(v) == CASE v.t = "leaf" -> 1
              [] v.t = "seq" -> FoldLeft(LAMBDA a, x : a + Count(x), 0, v.items)
              [] v.t = "map" -> FoldLeft(LAMBDA a, x : a + Count(x[2]), 0, v.items)
RECURSIVE Complexes(_)
Complexes(v) == CASE v.t = "leaf" -> IF v.kind = "complex" THEN 1 ELSE 0
                  [] v.t = "seq" -> FoldLeft(LAMBDA a, x : a + Complexes(x), 0, v.items)
                  [] v.t = "map" -> FoldLeft(LAMBDA a, x : a + Complexes(x[2]), 0, v.items)
RECURSIVE Nodes(_)
Nodes(v) == CASE v.t = "leaf" -> 1
              [] v.t = "seq" -> FoldLeft(LAMBDA a, x : a + Nodes(x), 1, v.items)
              [] v.t = "map" -> FoldLeft(LAMBDA a, x : a + Nodes(x[2]), 1, v.items)
RECURSIVE TextKeys(_)
TextKeys(v) == CASE v.t = "leaf" -> TRUE
                 [] v.t = "seq" -> \A i \in DOMAIN v.items : TextKeys(v.items[i])
                 [] v.t = "map" -> /\ \A i \in DOMAIN v.items : v.items[i][1].k = "str" /\ TextKeys(v.items[i][2])
                                   /\ \A i, j \in DOMAIN v.items : i # j => v.items[i][1] # v.items[j][1]

(* ---- building ---- *)
Init == stack = <<>> /\ ops = 0 /\ leaves = 0 /\ fin = FALSE
Top == stack[Len(stack)]
Under == stack[Len(stack) - 1]
Open == IF stack = <<>> THEN TRUE ELSE Top.t # "leaf"
Step == ~fin /\ ops < MaxOps /\ ops' = ops + 1 /\ fin' = FALSE
Room == Len(stack) < MaxStack + 1
Push(v) == Room /\ stack' = Append(stack, v)

PushLeaf == Step /\ Open
            /\ \E k \in Kinds : Push(Leaf(k, leaves + 1)) /\ leaves' = leaves + 1
PushSeq == Step /\ Open /\ \E k \in Seqs : Push(Seq_(k, <<>>)) /\ UNCHANGED leaves
PushMap == Step /\ Open /\ \E k \in Maps : Push(Map_(k, <<>>)) /\ UNCHANGED leaves
Replace(v) == stack' = Append(SubSeq(stack, 1, Len(stack) - 2), v)
Into == ~fin /\ Len(stack) > 1 /\ fin' = FALSE /\ ops' = ops /\ UNCHANGED leaves
MoveSeq == Into /\ Under.t = "seq" /\ Replace([Under EXCEPT !.items = Append(@, Top)])
MoveMap == Into /\ Under.t = "map"
           /\ \E key \in Keys : (\A i \in DOMAIN Under.items : Under.items[i][1] # key)
                /\ Replace([Under EXCEPT !.items = Append(@, <<key, Top>>)])
Finish == ~fin /\ Len(stack) = 1 /\ fin' = TRUE /\ UNCHANGED <<stack, ops, leaves>>
Next == PushLeaf \/ PushSeq \/ PushMap \/ MoveSeq \/ MoveMap \/ Finish
Spec == Init /\ [][Next]_vars

\* one random step at a time, for large values
Pick == RandomElement(1..100)
NextRandom == \/ /\ Step /\ Open
                 /\ LET p == Pick IN
                    CASE p <= 40 /\ stack # <<>> -> (LET k == RandomElement(Kinds) IN Push(Leaf(k, leaves + 1))) /\ leaves' = leaves + 1
                      [] p > 40 /\ p <= 65 /\ Len(stack) < MaxStack -> (LET k == RandomElement(Seqs) IN Push(Seq_(k, <<>>))) /\ UNCHANGED leaves
                      [] p > 65 /\ Len(stack) < MaxStack -> (LET k == RandomElement(Maps) IN Push(Map_(k, <<>>))) /\ UNCHANGED leaves
                      [] OTHER -> UNCHANGED <<stack, leaves>>
              \/ /\ Len(stack) > 1 /\ (Top.t = "leaf" \/ ops = MaxOps \/ Pick <= 10)
                 /\ \/ MoveSeq
                    \/ /\ Into /\ Under.t = "map"
                       /\ LET used == {Under.items[i][1] : i \in DOMAIN Under.items} IN
                          /\ IF Keys = used THEN stack' = SubSeq(stack, 1, Len(stack) - 1)
                             ELSE LET key == RandomElement(Keys \ used) IN Replace([Under EXCEPT !.items = Append(@, <<key, Top>>)])
              \/ (Finish /\ ops = MaxOps)
SpecRandom == Init /\ [][NextRandom]_vars

(* ---- properties ---- *)
KeysStayApart == \A a, b \in Keys : a # b => KeyText(a) # KeyText(b)
NothingLost == fin => LET v == Top IN
  /\ Count(InYaml(v)) = Count(v) /\ Nodes(InYaml(v)) = Nodes(v)
  /\ Count(InJson(v)) = Count(v) + Complexes(v)
  /\ TextKeys(InJson(v))
  /\ Flattens(v) => Count(Flat(v)) = Count(InJson(v))
\* the names of one flat result differ
NamesApart == (fin /\ Flattens(Top)) =>
  \A j \in DOMAIN Runs(Top) : LET m == FlatMap(Runs(Top)[j]).items IN
     \A a, b \in DOMAIN m : a # b => m[a][1] # m[b][1]
Emit == fin => PrintT(ToJson([val |-> Top, json |-> InJson(Top), yaml |-> InYaml(Top)] @@ (IF Flattens(Top) THEN [flat |-> Flat(Top)] ELSE [none |-> 0])))
=============================================================================

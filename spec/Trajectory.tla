----------------------------- MODULE Trajectory -----------------------------
(* Reading .md/.geom/.ts files: one step at a time, one row at a time.       *)
(*                                                                           *)
(* doc   rows printed so far;  acc  steps a reader has assembled;            *)
(* cur   the step being read;  st   where in a step we are                   *)
EXTENDS Doc

CONSTANTS Format,      \* "md" or "ts"
          MaxFrames, Rich,  \* Rich: every optional quantity may come and go
          Least,            \* at least this many steps
          Free              \* steps with this many rows, of any quantities in any order

VARIABLES doc, acc, cur, st, ions, left, conf
vars == <<doc, acc, cur, st, ions, left, conf>>

\* species and indices present: counts per species
IonSets == IF Rich /\ Free = 0 THEN { <<>>, << <<"@sp1", 1>> >>, << <<"@sp1", 1>>, <<"@sp1", 2>>, <<"@sp2", 1>> >>,
                          << <<"@sp1", 9>>, <<"@sp1", 10>>, <<"@sp1", 11>> >>,
                          << <<"@sp1:tag", 1>>, <<"@sp1", 1>> >> }
           ELSE { << <<"@sp1", 1>>, <<"@sp2", 1>> >> }

Scalars == << <<"T", 1>>, <<"P", 1>> >>

Next_Row == Len(doc) + 1
Add(t, a) == doc' = Append(doc, Row(t, a))

FrameStart == IF Format = "md" THEN [ions |-> Empty] ELSE Empty

Init == /\ doc = <<>> /\ acc = <<>> /\ cur = Empty /\ ions = <<>> /\ left = 0 /\ conf = FALSE
        /\ st = "head"

-----------------------------------------------------------------------------
\* md/geom: an optional comment block;  ts: a type line
Header ==
  /\ st = "head"
  /\ \E h \in (IF Format = "md" THEN (IF Rich THEN {"blank", "one", "two", "tight", "none"} ELSE {"one", "none"}) ELSE {"search", "confirm"}) :
       /\ IF h = "none" THEN doc' = doc ELSE Add("header", <<h>>)
       /\ conf' = (h = "confirm")
  /\ st' = "between" /\ \E s \in IonSets : ions' = s
  /\ UNCHANGED <<acc, cur, left>>

StartFrame ==
  /\ st = "between" /\ Len(acc) < MaxFrames
  /\ IF Format = "md"
     THEN /\ Add("time", <<>>)
          /\ cur' = [time |-> F(Next_Row, 1), ions |-> <<>>]
          /\ UNCHANGED left
     ELSE \E ty \in {"REA", "PRO", "TST"} :
          /\ Add("ts_start", <<ty>>)
          /\ cur' = [type |-> ty, reaction_coordinate |-> F(Next_Row, 1), ions |-> <<>>]
          /\ UNCHANGED left
  /\ st' = IF Free > 0 THEN "free" ELSE "E"
  /\ UNCHANGED <<acc, ions, conf>>

\* a row of a tagged quantity
Tagged(tag, n, next) ==
  /\ Add("tag", <<tag, n>>)
  /\ cur' = Push(cur, tag, Vec(Next_Row, n))
  /\ st' = next
  /\ UNCHANGED <<acc, ions, left, conf>>

Skip(next) == st' = next /\ UNCHANGED <<doc, acc, cur, ions, left, conf>>

Energy == st = "E" /\ (Tagged("E", IF Format = "ts" THEN 2 ELSE 3, "T") \/ (Rich /\ Tagged("E", 2, "T")))
Temp == st = "T" /\ IF Format = "ts" THEN Skip("h1") ELSE Tagged("T", 1, "P") \/ (Rich /\ Skip("P"))
Press == st = "P" /\ (Tagged("P", 1, "h1") \/ Skip("h1"))
Cell == \/ st = "h1" /\ Tagged("h", 3, "h2")
        \/ st = "h2" /\ Tagged("h", 3, "h3")
        \/ st = "h3" /\ Tagged("h", 3, IF Format = "ts" THEN "ions" ELSE "v1")
CellV == \/ st = "v1" /\ (Tagged("hv", 3, "v2") \/ Skip("s1"))
         \/ st = "v2" /\ Tagged("hv", 3, "v3")
         \/ st = "v3" /\ Tagged("hv", 3, "s1")
Stress == \/ st = "s1" /\ (Tagged("S", 3, "s2") \/ Skip("ions"))
          \/ st = "s2" /\ Tagged("S", 3, "s3")
          \/ st = "s3" /\ Tagged("S", 3, "ions")

IonTags == << "R", "V", "F" >>
\* a reader may not count on any order of the rows within a step
FreeTags == IF Format = "ts" THEN {<<"E", 2>>, <<"h", 3>>} ELSE {<<"E", 3>>, <<"T", 1>>, <<"P", 1>>, <<"h", 3>>, <<"hv", 3>>, <<"S", 3>>}
FreeRow == /\ st = "free" /\ Len(SelectSeq(doc, LAMBDA r : r[1] = "tag")) < Free * (Len(acc) + 1)
           /\ \E t \in FreeTags : Tagged(t[1], t[2], "free")
FreeIons == \* each ion's rows together, anywhere in the step, once
  /\ st = "free" /\ ("ions" \notin DOMAIN cur \/ cur.ions = <<>>) /\ Len(ions) > 0
  /\ LET rows == [k \in 1..(3 * Len(ions)) |-> <<ions[((k - 1) \div 3) + 1], IonTags[((k - 1) % 3) + 1]>>] IN
     /\ doc' = doc \o [k \in 1..Len(rows) |-> Row("ion", <<rows[k][1][1], rows[k][1][2], rows[k][2]>>)]
     /\ cur' = Put(cur, "ions", [k \in 1..Len(rows) |-> <<rows[k][1], rows[k][2], Vec(Len(doc) + k, 3)>>])
  /\ UNCHANGED <<acc, st, ions, left, conf>>
FreeEnd == st = "free" /\ Skip("endframe")

\* one row per ion for each of R, V, F; V and F may be absent
StartIons == /\ st = "ions"
             /\ \E first \in (IF Rich THEN {1, 3} ELSE {1}) : left' = first
             /\ st' = IF Len(ions) = 0 THEN "endframe" ELSE "ion1"
             /\ UNCHANGED <<doc, acc, cur, ions, conf>>
IonRows ==
  /\ st = "ion1"
  /\ doc' = doc \o [k \in 1..Len(ions) |-> Row("ion", <<ions[k][1], ions[k][2], IonTags[left]>>)]
  /\ cur' = [cur EXCEPT !.ions = @ \o [k \in 1..Len(ions) |-> <<ions[k], IonTags[left], Vec(Len(doc) + k, 3)>>]]
  /\ \E nx \in {k \in 2..4 : k > left /\ (Rich \/ k = left + 1)} :
       /\ left' = IF nx = 4 THEN 0 ELSE nx
       /\ st' = IF nx = 4 THEN "endframe" ELSE "ion1"
  /\ UNCHANGED <<acc, ions, conf>>

Alias == [E |-> "energy", T |-> "temperature", P |-> "pressure", h |-> "lattice_vectors",
          hv |-> "lattice_velocity", S |-> "stress", R |-> "position", V |-> "velocity", F |-> "force"]
WithAliases(m) == [k \in DOMAIN m \cup {Alias[x] : x \in DOMAIN m \cap DOMAIN Alias} |->
                     IF k \in DOMAIN m THEN m[k]
                     ELSE m[CHOOSE x \in DOMAIN m \cap DOMAIN Alias : Alias[x] = k]]

\* per ion: tag -> vector, with the long names too
IonMap(l) ==
  LET ids == {l[k][1] : k \in 1..Len(l)}
      Of(id) == LET ks == {k \in 1..Len(l) : l[k][1] = id}
                IN WithAliases([t \in {l[k][2] : k \in ks} |-> l[CHOOSE k \in ks : l[k][2] = t][3]])
  IN [k \in 1..Cardinality(ids) |-> LET id == SetToSeq(ids)[k] IN <<id, Of(id)>>]

Finished ==
  LET m == WithAliases(Without(cur, {"ions", "type"})) IN
  LET l == Get(cur, "ions", <<>>)
  IN IF Format = "md" THEN Put(m, "ions", Map(IonMap(l)))
     ELSE Map(IonMap(l) \o [k \in 1..Cardinality(DOMAIN m) |->
                                     LET key == SetToSeq(DOMAIN m)[k] IN <<key, m[key]>>])

EndFrame ==
  /\ st = "endframe"
  /\ \E term \in {"blank"} \cup (IF Len(acc) + 1 >= Least THEN {"eof"} ELSE {}) :
       /\ IF term = "blank" THEN Add("blank", <<>>) /\ st' = "between"
          ELSE doc' = doc /\ st' = "done"
  /\ acc' = Append(acc, <<Get(cur, "type", "-"), Finished>>)
  /\ cur' = Empty
  /\ UNCHANGED <<ions, left, conf>>

\* a search which ends in its confirmation says so where that starts
Confirms == /\ st = "between" /\ Format = "ts" /\ Rich /\ ~conf /\ Len(acc) = MaxFrames - 1 /\ acc # <<>>
            /\ Add("header", <<"confirm">>) /\ conf' = TRUE
            /\ UNCHANGED <<acc, cur, st, ions, left>>

Finish == /\ st = "between" /\ Len(acc) >= Least /\ st' = "done"
          /\ UNCHANGED <<doc, acc, cur, ions, left, conf>>

Next == Header \/ StartFrame \/ Energy \/ Temp \/ Press \/ Cell \/ CellV \/ Stress
        \/ FreeRow \/ FreeIons \/ FreeEnd \/ StartIons \/ IonRows \/ EndFrame \/ Confirms \/ Finish

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
OfType(ty) == LET l == SelectSeq(acc, LAMBDA a : a[1] = ty) IN [k \in 1..Len(l) |-> l[k][2]]
TsNames == [REA |-> "reagent", PRO |-> "product", TST |-> "test"]

Result ==
  IF Format = "md" THEN [k \in 1..Len(acc) |-> acc[k][2]]
  ELSE LET present == {ty \in DOMAIN TsNames : OfType(ty) # <<>>}
           m == [n \in {TsNames[ty] : ty \in present} |-> OfType(CHOOSE ty \in present : TsNames[ty] = n)]
       IN IF conf THEN Put(m, "confirmation", TRUE) ELSE m

\* nothing printed is lost: every step keeps as many entries as it has rows
TypeOK == Len(acc) <= MaxFrames
InOrder == [][Len(acc') \in {Len(acc), Len(acc) + 1} /\ (Len(acc) > 0 => SubSeq(acc', 1, Len(acc)) = acc)]_vars
Emit == st = "done" => PrintT(ToJson([doc |-> doc, exp |-> Result]))
=============================================================================

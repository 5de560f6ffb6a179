-------------------------------- MODULE Pspot --------------------------------
(* On-the-fly pseudopotential strings, written token by token, and the parts  *)
(* they decompose into:                                                       *)
(*   [-][energy=]local[-]|core|[beta|inner|]coarse|medium|fine|group{:group}  *)
(* followed by (flags), {adjustments} and [testing] in any order; a group is  *)
(* two digits and any number of projectors.                                   *)
EXTENDS Doc

CONSTANTS Free,         \* parts varied over all they may be (others stay plain)
          MaxGroups, MaxProj, MaxList

VARIABLES doc, st, res, grp
vars == <<doc, st, res, grp>>

NR == Len(doc) + 1
Varied(p) == p \in Free
Some(p, S_, d) == IF p \in Free THEN S_ ELSE {d}
T_(k) == S(k, "t")
CatRows(a, b) == [cat_ |-> [k \in 1..b - a + 1 |-> T_(a + k - 1)]]

Init == doc = <<>> /\ st = "local" /\ res = Empty /\ grp = [first |-> 0, all |-> <<>>]

\* the local channel, perhaps with an energy, perhaps marked for polynomial fitting
Local == /\ st = "local"
         /\ \E poly \in Some("local", {"", "before", "after"}, ""), energy \in Some("local", BOOLEAN, FALSE) :
              /\ doc' = <<Row("local", <<poly, energy>>)>>
              /\ res' = [poly_fit |-> poly # "", local_channel |-> F(1, "l")]
                        @@ (IF energy THEN ("local_energy" :> F(1, "e")) ELSE Empty)
         /\ st' = "radii" /\ UNCHANGED grp
Radii == /\ st = "radii"
         /\ \E six \in Some("radii", BOOLEAN, TRUE) :
              /\ doc' = Append(doc, Row("radii", <<six>>))
              /\ res' = res @@ [core_radius |-> F(NR, 1), coarse |-> F(NR, 4), medium |-> F(NR, 5), fine |-> F(NR, 6)]
                            @@ (IF six THEN ("beta_radius" :> F(NR, 2)) @@ ("r_inner" :> F(NR, 3)) ELSE Empty)
         /\ st' = "group" /\ grp' = [grp EXCEPT !.first = NR + 1]

Shells == <<"s", "p", "d", "f">>
Group == /\ st = "group" /\ Len(grp.all) < MaxGroups
         /\ \E l \in Some("shell", 0..3, 1) :
              /\ doc' = Append(doc, Row("group", <<Len(grp.all) = 0, l>>))
              /\ grp' = [grp EXCEPT !.all = Append(@, [orbital |-> I(NR, "o"), shell |-> Lit(Shells[l + 1]), shell_ind |-> l, projectors |-> <<>>])]
         /\ UNCHANGED <<st, res>>
Cur == Len(grp.all)
Types == {"U", "N", "G", "H", "L", "P"}
Energies == {"", "+", "-", "=", "=+", "=-"}
Projector ==
  /\ st = "group" /\ Cur > 0 /\ Len(grp.all[Cur].projectors) < MaxProj
  /\ \E t \in Some("type", Types, "U"), rc \in Some("proj", BOOLEAN, FALSE), e \in Some("proj", Energies, ""), d \in Some("proj", BOOLEAN, FALSE) :
       /\ doc' = Append(doc, Row("proj", <<t, rc, e, d>>))
       /\ grp' = [grp EXCEPT !.all[Cur].projectors = Append(@,
                    [type |-> Lit(t)] @@ (IF rc THEN ("beta_rc" :> F(NR, "rc")) ELSE Empty)
                                      @@ (IF e # "" THEN ("beta_e" :> F(NR, "e")) ELSE Empty)
                                      @@ (IF d THEN ("beta_delta" :> F(NR, "d")) ELSE Empty))]
  /\ UNCHANGED <<st, res>>
Groups == /\ st = "group" /\ Cur > 0 /\ st' = "tail"
          /\ res' = res @@ [beta_functions |-> grp.all, beta_function_string |-> CatRows(grp.first, Len(doc))]
          /\ UNCHANGED <<doc, grp>>

Options == /\ st = "tail"
        /\ \E what \in Some("tail", {"flags", "adjustment", "testing"}, "flags"), n \in 0..MaxList :
             /\ what \notin DOMAIN res /\ (n = 0 => what = "testing")
             /\ doc' = Append(doc, Row(what, <<n>>))
             /\ res' = Put(res, what, IF n = 0 THEN <<Lit("")>> ELSE [k \in 1..n |-> S(NR, k)])
        /\ UNCHANGED <<st, grp>>
Done == /\ st = "tail" /\ st' = "done"
        /\ res' = res @@ [print |-> "testing" \in DOMAIN res, string |-> CatRows(1, Len(doc))]
        /\ UNCHANGED <<doc, grp>>
Next == Local \/ Radii \/ Group \/ Projector \/ Groups \/ Options \/ Done
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* parts once read stay, and no part appears that was not written
Stays == [][\A k \in DOMAIN res : k \in DOMAIN res' /\ res'[k] = res[k]]_vars
Written(t) == \E i \in 1..Len(doc) : doc[i][1] = t
OnlyWritten == \A p \in {"flags", "adjustment", "testing"} : p \in DOMAIN res <=> Written(p)
GroupsKept == st = "done" => /\ Len(res.beta_functions) = Cardinality({i \in 1..Len(doc) : doc[i][1] = "group"})
                             /\ FoldSeq(LAMBDA g, n : n + Len(g.projectors), 0, res.beta_functions)
                                = Cardinality({i \in 1..Len(doc) : doc[i][1] = "proj"})
Emit == st = "done" => PrintT(ToJson([doc |-> doc, exp |-> res]))
=============================================================================

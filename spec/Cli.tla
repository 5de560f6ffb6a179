--------------------------------- MODULE Cli ---------------------------------
(* What the command line tool selects: a directory of files, include         *)
(* switches, files given explicitly for a type, and words which are          *)
(* seednames or files. Types and seednames are symbols standing for any.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Types,        \* symbols; "err" is special (it also has numbered files)
          Seeds,
          MaxExplicit, MaxWords

VARIABLES stage, files, inc, explicit, words
vars == <<stage, files, inc, explicit, words>>

(* A file is <<seed, extension>>. "d-t" is a directory whose name looks like a *)
(* file of type t, "n1", "n2" are numbered error files, "unk" has an unknown   *)
(* extension, "long" belongs to a seedname the first is a prefix of.          *)
Exts == Types \cup {"n1", "n2", "unk", "long"} \cup {"d-" \o t : t \in Types \ {"err"}}
Universe == Seeds \X Exts
TypeOf(e) == IF e \in {"n1", "n2"} THEN "err" ELSE e
Known(f) == f[2] \in Types \cup {"n1", "n2"}
Sane(fs) == \A s \in Seeds, t \in Types : <<s, "d-" \o t>> \in fs => <<s, t>> \notin fs   \* one name, one thing
Real == {f \in files : Known(f)}

-----------------------------------------------------------------------------
Included == IF inc \cap Types = {} \/ "all" \in inc THEN Types ELSE inc \cap Types
OfSeed(s) == {<<TypeOf(f[2]), f>> : f \in {g \in Real : g[1] = s /\ TypeOf(g[2]) \in Included}}
\* a word which looks like a file, but there is none (or a directory), is a seedname like any
OfWord(w) == CASE w[1] = "seed" -> OfSeed(w[2]) [] w[1] = "file" -> {<<TypeOf(w[2][2]), w[2]>>} [] w[1] = "gone" -> {}
Range(q) == {q[i] : i \in 1..Len(q)}
Selected == UNION {OfWord(w) : w \in Range(words)} \cup Range(explicit)
\* one path asked for as two types is outside: the document has one entry for it
Coherent == \A x, y \in Selected : x[2] = y[2] => x[1] = y[1]

-----------------------------------------------------------------------------
Init == stage = "files" /\ files = {} /\ inc = {} /\ explicit = <<>> /\ words = <<>>
Files == /\ stage = "files" /\ stage' = "inc"
         /\ \E fs \in SUBSET Universe : Sane(fs) /\ files' = fs
         /\ UNCHANGED <<inc, explicit, words>>
\* one random directory (for big universes)
SomeFiles == /\ stage = "files" /\ stage' = "inc"
             /\ \E fs \in {RandomSubset(RandomElement(0..Cardinality(Universe)), Universe)} :
                  files' = {f \in fs : ~\E t \in Types : f[2] = "d-" \o t /\ <<f[1], t>> \in fs}
             /\ UNCHANGED <<inc, explicit, words>>
Inc == /\ stage = "inc" /\ stage' = "more" /\ \E i \in SUBSET (Types \cup {"all"}) : inc' = i
       /\ UNCHANGED <<files, explicit, words>>
Explicit == /\ stage = "more" /\ Len(explicit) < MaxExplicit /\ words = <<>>
            /\ \E t \in Types, f \in Real \cup {g \in files : g[2] = "unk"} : explicit' = Append(explicit, <<t, f>>)
            /\ UNCHANGED <<stage, files, inc, words>>
Word == /\ stage = "more" /\ Len(words) < MaxWords
        /\ \E w \in ({"seed"} \X Seeds) \cup ({"file"} \X Real)
                        \cup ({"gone"} \X (Seeds \X (Types \cup {"n1"}) \ files)) : words' = Append(words, w)
        /\ UNCHANGED <<stage, files, inc, explicit>>
Done == /\ stage = "more" /\ Coherent /\ stage' = "done" /\ UNCHANGED <<files, inc, explicit, words>>
Rest == Inc \/ Explicit \/ Word \/ Done
Spec == Init /\ [][Files \/ Rest]_vars
SpecRandom == Init /\ [][SomeFiles \/ Rest]_vars

-----------------------------------------------------------------------------
\* only files there are, of included types unless asked for by name
Exist == stage = "done" => \A x \in Selected : x[2] \in files
Excluded == stage = "done" => \A x \in Selected : \/ x[1] \in Included
                                                  \/ x \in Range(explicit)
                                                  \/ \E w \in Range(words) : w = <<"file", x[2]>>
\* nothing asked for is left out
AllFound == stage = "done" => \A f \in Real : (\E w \in Range(words) : w = <<"seed", f[1]>>) /\ TypeOf(f[2]) \in Included
                                 => \E x \in Selected : x[2] = f
\* more words never take anything away
Monotone == [][stage' = stage => Selected \subseteq Selected']_vars
Emit == stage = "done" => PrintT(ToJson([files |-> files, inc |-> inc, explicit |-> explicit, words |-> words, exp |-> Selected]))
=============================================================================

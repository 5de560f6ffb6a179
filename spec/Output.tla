-------------------------------- MODULE Output -------------------------------
(* Runs over several inputs, one after another, writing to one file, to       *)
(* standard output or to a stream the caller holds.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Good, Bad,    \* symbols of inputs that parse, and that fail or are missing
          MaxInputs, MaxRuns

VARIABLES file, stdout, stream, runs
vars == <<file, stdout, stream, runs>>

Out(op, obs) == PrintT(ToJson([s |-> vars, o |-> op, x |-> obs, t |-> vars']))
Range(q) == {q[i] : i \in 1..Len(q)}
Inputs == {q \in UNION {[1..n -> Good \cup Bad] : n \in 0..MaxInputs} : Cardinality(Range(q)) = Len(q)}
\* the one document a run makes
DocOf(q) == CASE Len(q) = 0 -> <<"none">> [] Len(q) = 1 -> <<"bare", q[1]>> [] OTHER -> <<"map", Range(q)>>
Fails(q) == Range(q) \cap Bad # {}

\* the file is missing, empty, or already holds something ("other")
Init == /\ file \in {<<>>, <<<<"other">>>>} /\ stdout = <<>> /\ stream = <<>> /\ runs = 0
After(old, q) == IF Fails(q) THEN old ELSE Append(old, DocOf(q))
Run(q, dest) ==
  /\ runs < MaxRuns /\ runs' = runs + 1
  /\ file' = IF dest = "file" THEN After(file, q) ELSE file
  /\ stdout' = IF dest = "stdout" THEN After(stdout, q) ELSE stdout
  /\ stream' = IF dest = "stream" THEN After(stream, q) ELSE stream
  /\ Out(<<"run", q, dest>>, IF Fails(q) THEN <<"raises">> ELSE DocOf(q))
Next == \E q \in Inputs, dest \in {"file", "stdout", "stream"} : Run(q, dest)
Spec == Init /\ [][Next]_vars

\* what is there stays, and a run adds one document to one place or none to any
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Appends == [][Prefix(file, file') /\ Prefix(stdout, stdout') /\ Prefix(stream, stream')]_vars
OneDoc == [][Len(file') + Len(stdout') + Len(stream') - Len(file) - Len(stdout) - Len(stream) <= 1]_vars
=============================================================================

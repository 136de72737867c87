-------------------------------- MODULE Emit --------------------------------
(* Behaviours of an algorithm model become programs for the real library:    *)
(* the first few inputs reaching each distinct path are printed.  One worker.*)
EXTENDS Integers, Sequences, TLC
LOCAL Seen == TLCGet(7)
ASSUME TLCSet(7, [x \in {} |-> 0])
Count(path) == IF path \in DOMAIN Seen THEN Seen[path] ELSE 0
Emit(path, max, program) ==
  IF Count(path) >= max THEN TRUE
  ELSE /\ TLCSet(7, [x \in DOMAIN Seen \cup {path} |-> IF x = path THEN Count(path) + 1 ELSE Seen[x]])
       /\ PrintT("PROGRAM " \o program \o " # " \o ToString(path))
=============================================================================

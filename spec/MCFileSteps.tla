---------------------------- MODULE MCFileSteps ----------------------------
(***************************************************************************)
(* A store at the level of the file system: a temporary file is created,   *)
(* written block by block and renamed over the file of the key.  Writers   *)
(* store different values under one key; any of them can stop for ever     *)
(* after any step (crash, full disk); a reader opens the file and reads it *)
(* block by block while the writers go on.  InPlace = TRUE is the protocol *)
(* without a temporary file: it must violate Whole.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Writers, Blocks, InPlace, ExportMod, Seed
VARIABLES name,      \* what the name of the key refers to: a file or 0
          file,      \* file -> sequence of blocks (a block is the number of the writer that wrote it)
          pc, reader
vars == <<name, file, pc, reader>>
Old == 99
WholeFile(f) == \E w \in Writers \cup {Old} : file[f] = [i \in 1..Blocks |-> w]
Init == /\ file = (Old :> [i \in 1..Blocks |-> Old]) @@ [w \in Writers |-> <<>>]
        /\ name \in {0, Old}
        /\ pc = [w \in Writers |-> "start"]
        /\ reader = [f |-> -1, got |-> <<>>, ended |-> FALSE]
Target(w) == IF InPlace THEN (IF name = 0 THEN w ELSE name) ELSE w
Create(w) == /\ pc[w] = "start" /\ pc' = [pc EXCEPT ![w] = "write"]
             /\ file' = [file EXCEPT ![Target(w)] = <<>>]
             /\ name' = IF InPlace THEN Target(w) ELSE name
             /\ UNCHANGED reader
Write(w) == /\ pc[w] = "write" /\ Len(file[Target(w)]) < Blocks
            /\ file' = [file EXCEPT ![Target(w)] = Append(@, w)] /\ UNCHANGED <<name, pc, reader>>
Rename(w) == /\ pc[w] = "write" /\ Len(file[Target(w)]) = Blocks
             /\ name' = IF InPlace THEN name ELSE w
             /\ pc' = [pc EXCEPT ![w] = "done"] /\ UNCHANGED <<file, reader>>
Crash(w) == pc[w] \in {"start", "write"} /\ pc' = [pc EXCEPT ![w] = "crashed"] /\ UNCHANGED <<name, file, reader>>
Open == reader.f = -1 /\ reader' = [reader EXCEPT !.f = name, !.ended = (name = 0)] /\ UNCHANGED <<name, file, pc>>
Read == /\ reader.f > 0 /\ ~reader.ended
        /\ reader' = IF Len(reader.got) < Len(file[reader.f]) THEN [reader EXCEPT !.got = Append(@, file[reader.f][Len(@) + 1])]
                     ELSE [reader EXCEPT !.ended = TRUE]
        /\ UNCHANGED <<name, file, pc>>
Next == (\E w \in Writers : Create(w) \/ Write(w) \/ Rename(w) \/ Crash(w)) \/ Open \/ Read
Spec == Init /\ [][Next]_vars
(* what the name refers to is always whole, whoever stopped wherever *)
Whole == name # 0 => WholeFile(name)
(* what a reader got is whole or nothing *)
ReadWhole == (reader.ended /\ reader.f # 0) => \E w \in Writers \cup {Old} : reader.got = [i \in 1..Blocks |-> w]
(* a store that came to its end was readable *)
Landed == (\E w \in Writers : pc[w] = "done") => name \in Writers
Exported == TRUE
=============================================================================

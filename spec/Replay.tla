------------------------------- MODULE Replay -------------------------------
(***************************************************************************)
(* Trace validation: programs with the traces recorded from the real       *)
(* interpreter, checked against Machine.  One initial state per program;   *)
(* a behaviour is the machine's run of that program.                       *)
(***************************************************************************)
EXTENDS Machine, Json, CSV, IOUtils
VARIABLES pi, m

File == IOEnv.PSCM_PROGRAMS
OutFile == IOEnv.PSCM_VERDICTS
Programs == JsonDeserialize(File)      \* <<[prog, traces, max], ...>>
Chunk == 8                             \* machine steps per transition

Init == /\ pi \in 1..Len(Programs)
        /\ m = InitState(Programs[pi].prog)

Verdict(s) == CSVWrite("%1$s", <<ToJson([i |-> pi, v |-> s.mode, x |-> IF s.mode = "done" THEN "" ELSE s.x,
                                        n |-> s.n, ne |-> s.ne])>>, OutFile)

Next == /\ Running(m)
        /\ LET p == Programs[pi]
               s == StepN(m, p.prog, p.traces, p.max, Chunk)
           IN /\ m' = s
              /\ (IF Running(s) THEN TRUE ELSE Verdict(s))
        /\ UNCHANGED pi
Spec == Init /\ [][Next]_<<pi, m>>
Inv == MachineInv(m)
=============================================================================

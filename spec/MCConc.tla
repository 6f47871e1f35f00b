------------------------------- MODULE MCConc -------------------------------
(***************************************************************************)
(* Why calls may not share what they write.  A call expands its key into a *)
(* workspace, mixes the message into it and reads the result from it.  The *)
(* workspace is the call's own; or the library's; or the library's under a *)
(* lock; or a cache of the last expanded key, kept in two cells.  The      *)
(* first and the third give every caller its sequential result under every *)
(* schedule (invariants of Conc's Finish); the others have schedules that  *)
(* do not, and these are looked for and have to be found.                  *)
(* With Record, the schedules of the first design are printed: the driver  *)
(* carries them out with the real calls.                                   *)
(***************************************************************************)
EXTENDS Conc
CONSTANTS Threads, Keys, Phases, Record
VARIABLES design, job, pc, ws, acc, lock, sched, wrong
vars == <<alone, running, design, job, pc, ws, acc, lock, sched, wrong>>
Designs == IF Record THEN {"own"} ELSE {"own", "library", "locked", "cache"}
Result(k) == <<"result", k, Phases>>
Lib == 100
Tag == 101
Cell(t) == IF design = "own" THEN t ELSE Lib
Cells == Threads \cup {Lib, Tag}
Jobs == IF Record THEN {[t \in Threads |-> 1]} ELSE [Threads -> Keys]
Init == /\ design \in Designs /\ job \in Jobs
        /\ alone = [k \in Keys |-> Result(k)] /\ running = << >>
        /\ pc = [t \in Threads |-> 0] /\ ws = [x \in Cells |-> 0] /\ acc = [t \in Threads |-> 0]
        /\ lock = 0 /\ sched = << >> /\ wrong = FALSE
Free(t) == design # "locked" \/ lock \in {0, t}
Begin(t) == /\ pc[t] = 0 /\ Start(t, job[t])
            /\ pc' = [pc EXCEPT ![t] = 1]
            /\ UNCHANGED <<design, job, ws, acc, lock, sched, wrong>>
(* phase 1 writes the workspace, the phases in between use it, the last gives the result *)
Phase(t) ==
  /\ pc[t] \in 1..Phases /\ Free(t) /\ Run(t)
  /\ lock' = IF design # "locked" THEN 0 ELSE IF pc[t] = Phases THEN 0 ELSE t
  /\ IF pc[t] = 1
     THEN IF design = "cache"
          THEN ws' = IF ws[Tag] = job[t] THEN ws ELSE [ws EXCEPT ![Tag] = job[t]]   \* the cell follows in the next phase
          ELSE ws' = [ws EXCEPT ![Cell(t)] = job[t]]
     ELSE IF pc[t] = 2 /\ design = "cache" THEN ws' = [ws EXCEPT ![Lib] = ws[Tag]]
     ELSE UNCHANGED ws
  /\ acc' = [acc EXCEPT ![t] = IF pc[t] = Phases THEN ws'[Cell(t)] ELSE @]
  /\ pc' = [pc EXCEPT ![t] = @ + 1]
  /\ sched' = IF Record THEN Append(sched, t) ELSE sched
  /\ UNCHANGED <<design, job, wrong>>
End(t) == /\ pc[t] = Phases + 1 /\ pc' = [pc EXCEPT ![t] = @ + 1]
          /\ IF Result(acc[t]) = alone[job[t]] THEN Finish(t, Result(acc[t])) /\ wrong' = wrong
             ELSE running' = Without(running, t) /\ wrong' = TRUE /\ UNCHANGED alone
          /\ UNCHANGED <<design, job, ws, acc, lock, sched>>
Next == \E t \in Threads : Begin(t) \/ Phase(t) \/ End(t)
Spec == Init /\ [][Next]_vars
Done == \A t \in Threads : pc[t] = Phases + 2
Sequential == design \in {"own", "locked"} => ~wrong
(* found: a schedule in which the design fails *)
Note == /\ (wrong => TLCSet(IF design = "library" THEN 2 ELSE 3, TRUE))
        /\ (Record /\ Done => PrintT(<<"SCHEDULE", sched>>))
Setup == TLCSet(2, FALSE) /\ TLCSet(3, FALSE)
ASSUME Setup
Refuted == Record \/ (TLCGet(2) /\ TLCGet(3))
(* with one thread every design is right *)
Lonely == Cardinality(Threads) = 1 => ~wrong
=============================================================================

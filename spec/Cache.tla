------------------------------- MODULE Cache --------------------------------
(* The cache of DescribeType::type_descriptor, at the grain of its lock      *)
(* operations: look up under the read lock; build outside any lock, where    *)
(* user code (metadata expressions) may ask for further descriptors, catch   *)
(* their panics, or panic; insert-or-take under the write lock.  Checked:    *)
(* it implements CacheAbs, never poisons its lock, never deadlocks, and      *)
(* every call ends.                                                          *)
(* Discipline "outside" is the code; the others are known wrong designs the  *)
(* model must reject ("write"/"read": build while holding the lock,          *)
(* "overwrite": no second look before inserting, "own": every builder keeps  *)
(* its own result).                                                          *)
(* With Coarse = TRUE, every run of a thread between two points of user code *)
(* is one step; the schedules found are printed and replayed in the library. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json

M == JsonDeserialize(IOEnv.MM_CACHE)
Discipline == M.discipline
Coarse == M.coarse
\* a scenario: asks[t] = descriptors building t asks for, in order (a type <<"!", ..>> is written as its number);
\* panics[t] = how many constructions of t panic; guard[t] = its expressions catch panics of what they ask for; progs[th] = the calls th makes
Scenarios == M.scenarios
NT == M.types
NTh == M.threads
Types == 0 .. NT - 1
Threads == 0 .. NTh - 1
None == -1

VARIABLES sc, cache, nptr, rd, wr, poison, left, stk, prog, fall, seen, sched

vars == <<sc, cache, nptr, rd, wr, poison, left, stk, prog, fall, seen, sched>>
view == <<sc, cache, nptr, rd, wr, poison, left, stk, prog, fall, seen>>

\* a frame: one call.  pc: "look" (wants the read lock) "looking" "build" (before user code i) "insert" (wants the write lock) "inserting" "ret"
Frame(t) == [t |-> t, pc |-> "look", i |-> 1, res |-> None, held |-> "no"]
S == Scenarios[sc]
Top(th) == stk[th][Len(stk[th])]
SetTop(th, f) == stk' = [stk EXCEPT ![th] = [@ EXCEPT ![Len(@)] = f]]

Init == /\ sc \in 1 .. Len(Scenarios)
        /\ cache = [t \in Types |-> None] /\ nptr = 0
        /\ rd = 0 /\ wr = FALSE /\ poison = FALSE
        /\ left = [t \in Types |-> Scenarios[sc].panics[t + 1]]
        /\ stk = [th \in Threads |-> <<>>] /\ prog = [th \in Threads |-> 1]
        /\ fall = [th \in Threads |-> FALSE]
        /\ seen = [t \in Types |-> None] /\ sched = <<>>

\* ---- fine grain
Start(th) == /\ stk[th] = <<>> /\ ~fall[th] /\ prog[th] <= Len(S.progs[th + 1])
             /\ stk' = [stk EXCEPT ![th] = <<Frame(S.progs[th + 1][prog[th]])>>]
             /\ prog' = [prog EXCEPT ![th] = @ + 1]
             /\ UNCHANGED <<sc, cache, nptr, rd, wr, poison, left, fall, seen>>
Busy(th, pc) == stk[th] # <<>> /\ ~fall[th] /\ Top(th).pc = pc

\* lock().unwrap() on a poisoned lock panics
Poisoned(th) == /\ fall' = [fall EXCEPT ![th] = TRUE]
                /\ UNCHANGED <<sc, cache, nptr, rd, wr, poison, left, stk, prog, seen>>
ReadLock(th) == /\ Busy(th, "look") /\ ~wr
                /\ IF poison THEN Poisoned(th)
                   ELSE /\ rd' = rd + 1 /\ SetTop(th, [Top(th) EXCEPT !.pc = "looking"])
                        /\ UNCHANGED <<sc, cache, nptr, wr, poison, left, prog, fall, seen>>
Look(th) == /\ Busy(th, "looking")
            /\ LET f == Top(th) IN
               IF cache[f.t] # None
               THEN rd' = rd - 1 /\ SetTop(th, [f EXCEPT !.pc = "ret", !.res = cache[f.t]])
               ELSE IF Discipline = "read" THEN rd' = rd /\ SetTop(th, [f EXCEPT !.pc = "build", !.held = "read"])
               ELSE rd' = rd - 1 /\ SetTop(th, [f EXCEPT !.pc = IF Discipline = "write" THEN "insert" ELSE "build"])
            /\ UNCHANGED <<sc, cache, nptr, wr, poison, left, prog, fall, seen>>
Ask(th) == /\ Busy(th, "build")
           /\ LET f == Top(th) IN
              /\ f.i <= Len(S.asks[f.t + 1])
              /\ stk' = [stk EXCEPT ![th] = Append([@ EXCEPT ![Len(@)] = [f EXCEPT !.i = @ + 1]], Frame(S.asks[f.t + 1][f.i]))]
           /\ UNCHANGED <<sc, cache, nptr, rd, wr, poison, left, prog, fall, seen>>
Built(th) == /\ Busy(th, "build")
             /\ LET f == Top(th) IN
                /\ f.i > Len(S.asks[f.t + 1]) /\ left[f.t] = 0
                /\ SetTop(th, [f EXCEPT !.pc = IF f.held = "write" THEN "inserting" ELSE "insert", !.held = IF @ = "read" THEN "no" ELSE @])
                /\ rd' = IF f.held = "read" THEN rd - 1 ELSE rd
             /\ UNCHANGED <<sc, cache, nptr, wr, poison, left, prog, fall, seen>>
BuildPanics(th) == /\ Busy(th, "build")
                   /\ LET f == Top(th) IN
                      /\ f.i > Len(S.asks[f.t + 1]) /\ left[f.t] > 0
                      /\ left' = [left EXCEPT ![f.t] = @ - 1]
                   /\ fall' = [fall EXCEPT ![th] = TRUE]
                   /\ UNCHANGED <<sc, cache, nptr, rd, wr, poison, stk, prog, seen>>
WriteLock(th) == /\ Busy(th, "insert") /\ ~wr /\ rd = 0
                 /\ IF poison THEN Poisoned(th)
                    ELSE /\ wr' = TRUE
                         /\ SetTop(th, [Top(th) EXCEPT !.pc = IF Discipline = "write" /\ cache[Top(th).t] = None THEN "build" ELSE "inserting", !.held = "write"])
                         /\ UNCHANGED <<sc, cache, nptr, rd, poison, left, prog, fall, seen>>
Insert(th) == /\ Busy(th, "inserting")
              /\ LET f == Top(th)
                     new == cache[f.t] = None \/ Discipline \in {"overwrite", "own"}
                     c == IF cache[f.t] = None \/ Discipline = "overwrite" THEN nptr ELSE cache[f.t]
                 IN /\ nptr' = IF new THEN nptr + 1 ELSE nptr
                    /\ cache' = [cache EXCEPT ![f.t] = c]
                    /\ SetTop(th, [f EXCEPT !.pc = "ret", !.res = IF new THEN nptr ELSE c, !.held = "no"])
              /\ wr' = FALSE
              /\ UNCHANGED <<sc, rd, poison, left, prog, fall, seen>>
Return(th) == /\ Busy(th, "ret")
              /\ seen' = [seen EXCEPT ![Top(th).t] = IF @ = None THEN Top(th).res ELSE @]
              /\ stk' = [stk EXCEPT ![th] = SubSeq(@, 1, Len(@) - 1)]
              /\ UNCHANGED <<sc, cache, nptr, rd, wr, poison, left, prog, fall>>
\* the panic leaves the innermost call, releasing its guards; a write guard poisons
Unwind(th) == /\ fall[th] /\ stk[th] # <<>>
              /\ LET f == Top(th) IN
                 /\ wr' = IF f.held = "write" THEN FALSE ELSE wr
                 /\ poison' = (poison \/ f.held = "write")
                 /\ rd' = IF f.held = "read" THEN rd - 1 ELSE rd
              /\ stk' = [stk EXCEPT ![th] = SubSeq(@, 1, Len(@) - 1)]
              \* from here it goes on in the caller's expression, unless that one, or the program, catches it
              /\ fall' = [fall EXCEPT ![th] = LET r == stk'[th] IN r # <<>> /\ ~S.guard[r[Len(r)].t + 1]]
              /\ UNCHANGED <<sc, cache, nptr, left, prog, seen>>

Micro(th) == Start(th) \/ ReadLock(th) \/ Look(th) \/ Ask(th) \/ Built(th) \/ BuildPanics(th) \/ WriteLock(th) \/ Insert(th) \/ Return(th) \/ Unwind(th)
Done == \A th \in Threads : stk[th] = <<>> /\ ~fall[th] /\ prog[th] > Len(S.progs[th + 1])

\* ---- coarse grain: a thread that is not at a point of user code (or between calls) runs on before another one may
AtPoint(th) == ~fall[th] /\ (stk[th] = <<>> \/ Top(th).pc = "build")
Running == {th \in Threads : ~AtPoint(th)}
Fin(th) == stk[th] = <<>> /\ ~fall[th] /\ prog[th] > Len(S.progs[th + 1])

Next == IF Coarse
        THEN \E th \in Threads : /\ Running \in {{}, {th}}
                                 /\ Micro(th)
                                 /\ sched' = IF Running = {} THEN Append(sched, th) ELSE sched
        ELSE \E th \in Threads : Micro(th) /\ sched' = sched
Spec == Init /\ [][Next]_vars /\ \A th \in Threads : WF_vars(Micro(th) /\ sched' = sched)

\* ---- properties
TypeOK == rd >= 0 /\ (wr => rd = 0)
NeverPoisoned == ~poison
OneDescriptor == \A th \in Threads : stk[th] # <<>> /\ Top(th).pc = "ret" => seen[Top(th).t] \in {None, Top(th).res}
Stable == [][\A t \in Types : cache[t] # None => cache'[t] = cache[t]]_vars
NoPtrShared == \A t, u \in Types : t # u /\ cache[t] # None => cache[t] # cache[u]
\* no deadlock: somebody can always move until all programs are through
Progress == Done \/ ENABLED Next
Terminates == <>Done
PrintSched == (Coarse /\ Done) => PrintT("S " \o ToJson([sc |-> sc, sched |-> sched]))

\* ---- refinement
absCalls == [th \in Threads |-> [i \in 1 .. Len(stk[th]) |-> stk[th][i].t]]
\* the panic leaving a call and being caught are one step here and two there; where it is caught, falling there already ended
Abs == INSTANCE CacheAbs WITH Ptrs <- 0 .. 20, ptr <- seen, calls <- absCalls, falling <- fall
\* the same steps as in CacheAbs, with the last Unwind and Caught taken together
AbsStep == \/ Abs!AbsNext
           \/ \E th \in Threads : fall[th] /\ absCalls[th] # <<>> /\ absCalls' = [absCalls EXCEPT ![th] = SubSeq(@, 1, Len(@) - 1)] /\ fall' = [fall EXCEPT ![th] = FALSE] /\ seen' = seen
\* a panic happens only in a construction that panics
OnlyBuildsPanic == [][\A th \in Threads : ~fall[th] /\ fall'[th] => Top(th).pc = "build" /\ left' # left]_vars
Refines == Abs!AbsInit /\ [][AbsStep]_<<seen, absCalls, fall>>
=============================================================================

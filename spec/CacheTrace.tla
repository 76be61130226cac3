----------------------------- MODULE CacheTrace -----------------------------
(* Decides whether what threads observed of the real cache is a behaviour of *)
(* CacheAbs.  One file holds many recorded processes, each begun by a "proc" *)
(* event naming its threads' programs and ended by an "end" event.  Events:  *)
(* call th t | ret th t p d | boom th | unw th t | caught th | end           *)
EXTENDS CacheAbs, Integers, TLC, IOUtils, Json

Log == ndJsonDeserialize(IOEnv.MM_TRACE)
C == JsonDeserialize(IOEnv.MM_CACHE)
Desc == C.desc            \* Desc[t]: what the descriptor of type t must say

TrThreads == 0 .. C.threads - 1
TrTypes == 0 .. Len(C.desc) - 1
TrPtrs == {}

VARIABLES l, bad, todo    \* todo[th]: the calls the thread still has to make
tvars == <<l, bad, todo, ptr, calls, falling>>

Fresh == /\ ptr' = [t \in Types |-> None] /\ calls' = [th \in Threads |-> <<>>] /\ falling' = [th \in Threads |-> FALSE]
Init == AbsInit /\ l = 1 /\ bad = FALSE /\ todo = [th \in Threads |-> <<>>] /\ TLCSet(1, 0) /\ TLCSet(2, 0)

Allowed(e) ==
  CASE e.e = "call" -> Call(e.th, e.t) /\ IF calls[e.th] = <<>> THEN todo[e.th] # <<>> /\ Head(todo[e.th]) = e.t /\ todo' = [todo EXCEPT ![e.th] = Tail(@)] ELSE UNCHANGED todo
    [] e.e = "ret" -> calls[e.th] # <<>> /\ Top(e.th) = e.t /\ e.d = Desc[e.t + 1] /\ Ret(e.th, e.p) /\ UNCHANGED todo
    [] e.e = "boom" -> Boom(e.th) /\ UNCHANGED todo
    [] e.e = "unw" -> calls[e.th] # <<>> /\ Top(e.th) = e.t /\ Unwind(e.th) /\ UNCHANGED todo
    [] e.e = "caught" -> Caught(e.th) /\ UNCHANGED todo
    [] e.e = "end" -> (\A th \in Threads : calls[th] = <<>> /\ ~falling[th] /\ todo[th] = <<>>) /\ UNCHANGED <<ptr, calls, falling, todo>>

Event == /\ l <= Len(Log) /\ l' = l + 1
         /\ LET e == Log[l] IN
            IF e.e = "proc" THEN Fresh /\ bad' = FALSE /\ todo' = [th \in Threads |-> IF th < Len(e.progs) THEN e.progs[th + 1] ELSE <<>>]
            ELSE IF bad THEN UNCHANGED <<bad, todo, ptr, calls, falling>>
            ELSE /\ TLCSet(2, TLCGet(2) + 1)
                 /\ \/ Allowed(e) /\ bad' = FALSE
                    \/ /\ ~ENABLED Allowed(e)
                       /\ bad' = TRUE /\ UNCHANGED <<todo, ptr, calls, falling>>
                       /\ TLCSet(1, TLCGet(1) + 1)
                       /\ PrintT("MISMATCH " \o ToJson([l |-> l, open |-> [th \in Threads |-> calls[th]], ptr |-> ptr, falling |-> falling]))
Spec == Init /\ [][Event]_tvars
Accepted == PrintT("CHECKED " \o ToString(TLCGet(2)) \o " " \o ToString(TLCGet("stats").diameter - 1) \o " " \o ToString(Len(Log)))
            /\ TLCGet("stats").diameter - 1 = Len(Log) /\ TLCGet(1) = 0
=============================================================================

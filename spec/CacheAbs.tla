------------------------------ MODULE CacheAbs ------------------------------
(* What the users of the descriptor cache may rely on, whatever the cache is *)
(* made of: every call is answered, all answers for one type are one and the *)
(* same descriptor, the right one, and a panic comes only out of a           *)
(* construction that panics.  Steps are those a caller can observe.          *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Threads, Types, Ptrs, None
VARIABLES ptr,      \* ptr[t]: the descriptor all calls for t have got so far, None before the first
          calls,    \* calls[th]: the types asked for and not yet answered, innermost last
          falling   \* falling[th]: a construction panicked and nobody has caught it yet

absvars == <<ptr, calls, falling>>

AbsInit == /\ ptr = [t \in Types |-> None]
           /\ calls = [th \in Threads |-> <<>>]
           /\ falling = [th \in Threads |-> FALSE]

Top(th) == calls[th][Len(calls[th])]
Pop(th) == calls' = [calls EXCEPT ![th] = SubSeq(@, 1, Len(@) - 1)]

Call(th, t) == /\ ~falling[th]
               /\ calls' = [calls EXCEPT ![th] = Append(@, t)]
               /\ UNCHANGED <<ptr, falling>>

\* the answer is descriptor p: new and not that of another type, or the one given before
Ret(th, p) == /\ calls[th] # <<>> /\ ~falling[th]
              /\ p # None
              /\ \A u \in Types \ {Top(th)} : ptr[u] # p
              /\ ptr[Top(th)] \in {None, p}
              /\ ptr' = [ptr EXCEPT ![Top(th)] = p]
              /\ Pop(th) /\ UNCHANGED falling

\* the construction of a type being asked for by th panics
Boom(th) == /\ calls[th] # <<>> /\ ~falling[th]
            /\ falling' = [falling EXCEPT ![th] = TRUE]
            /\ UNCHANGED <<ptr, calls>>

\* the panic leaves the innermost call ...
Unwind(th) == /\ calls[th] # <<>> /\ falling[th]
              /\ Pop(th) /\ UNCHANGED <<ptr, falling>>
\* ... and is caught by who made that call
Caught(th) == /\ falling[th]
              /\ falling' = [falling EXCEPT ![th] = FALSE]
              /\ UNCHANGED <<ptr, calls>>

AbsNext == \E th \in Threads :
             \/ \E t \in Types : Call(th, t)
             \/ \E p \in Ptrs : Ret(th, p)
             \/ Boom(th) \/ Unwind(th) \/ Caught(th)

AbsSpec == AbsInit /\ [][AbsNext]_absvars
=============================================================================

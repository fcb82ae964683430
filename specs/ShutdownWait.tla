---------------------------- MODULE ShutdownWait ----------------------------
(* How Shutdown waits for the end of the connections, in detail: connections are taken off the
   list one by one, and each then notifies the waiter, which looks at the list and sleeps when it
   isn't empty. The notification is only seen by a waiter that sleeps.

   With Locked = FALSE, the notification can come between looking and sleeping, and the waiter
   sleeps for ever: Returns is violated. *)
EXTENDS Integers, FiniteSets

CONSTANTS N,       \* connections
          Locked   \* whether the notification takes the lock

VARIABLES list,    \* connections on the list
          pc,      \* pc of each connection: open, removed, done
          wpc,     \* pc of the waiter: look, sleep, asleep, woken, done
          lock     \* who has the lock: 0 nobody, -1 the waiter, or a connection
vars == <<list, pc, wpc, lock>>

C == 1..N
Init == list = C /\ pc = [c \in C |-> "open"] /\ wpc = "start" /\ lock = 0

Remove(c) == pc[c] = "open" /\ list' = list \ {c} /\ pc' = [pc EXCEPT ![c] = "removed"] /\ UNCHANGED <<wpc, lock>>
Wake == IF wpc = "asleep" THEN "woken" ELSE wpc
Notify(c) ==
  IF Locked
  THEN \/ pc[c] = "removed" /\ lock = 0 /\ lock' = c /\ pc' = [pc EXCEPT ![c] = "locked"] /\ UNCHANGED <<list, wpc>>
       \/ pc[c] = "locked" /\ lock = c /\ lock' = 0 /\ pc' = [pc EXCEPT ![c] = "done"] /\ wpc' = Wake /\ UNCHANGED list
  ELSE pc[c] = "removed" /\ pc' = [pc EXCEPT ![c] = "done"] /\ wpc' = Wake /\ UNCHANGED <<list, lock>>

Acquire == wpc \in {"start", "woken"} /\ lock = 0 /\ lock' = -1 /\ wpc' = "look" /\ UNCHANGED <<list, pc>>
Look == wpc = "look" /\ wpc' = (IF list = {} THEN "return" ELSE "wait") /\ UNCHANGED <<list, pc, lock>>
\* Goes to sleep and releases the lock in one step.
Sleep == wpc = "wait" /\ wpc' = "asleep" /\ lock' = 0 /\ UNCHANGED <<list, pc>>
Return == wpc = "return" /\ wpc' = "done" /\ lock' = 0 /\ UNCHANGED <<list, pc>>

Next == (\E c \in C: Remove(c) \/ Notify(c)) \/ Acquire \/ Look \/ Sleep \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next) /\ \A c \in C: WF_vars(Remove(c)) /\ SF_vars(Notify(c))

NotEarly == wpc \in {"return", "done"} => list = {}
Returns == <>(wpc = "done")
=============================================================================

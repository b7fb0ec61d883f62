------------------------------ MODULE Refcount ------------------------------
(***************************************************************************)
(* The protocol of references to a shared buffer, step by step, for all    *)
(* interleavings.  Threads own handles of the same buffer; a handle is     *)
(* copied by adding a reference, dropped by                                *)
(*    if the counter isn't 1 { decrement; if there are others, leave }     *)
(*    release the buffer                                                   *)
(* and turned into a writable tuple by                                     *)
(*    if the counter is 1 { take the buffer over } else { copy, drop }     *)
(* The handle of the main thread is the original one: others copy from it  *)
(* until it is dropped after all of them are done with copying.            *)
(* It implements SharingSpec, which is what recorded interleavings of the  *)
(* library are judged by.                                                  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, MaxHandles, MaxCopies

VARIABLES n,         \* the counter
          own,       \* handles of a thread
          pc,        \* what a thread is doing
          left,      \* copies a thread may still make
          releases,  \* how many times the buffer was released
          taken      \* the thread which took the buffer over
vars == <<n, own, pc, left, releases, taken>>
Main == CHOOSE t \in Threads : TRUE

Init == /\ n = 1 /\ own = [t \in Threads |-> IF t = Main THEN 1 ELSE 0]
        /\ pc = [t \in Threads |-> "idle"] /\ left = [t \in Threads |-> MaxCopies]
        /\ releases = 0 /\ taken = {}

\* a copy is made from an own handle, or from the main one while it is there
CanCopy(t) == own[t] > 0 \/ (own[Main] > 0 /\ pc[Main] = "idle" /\ left[t] = MaxCopies)
Copy(t) == /\ pc[t] = "idle" /\ t \notin taken /\ left[t] > 0 /\ own[t] < MaxHandles /\ CanCopy(t)
           /\ n' = n + 1 /\ own' = [own EXCEPT ![t] = @ + 1] /\ left' = [left EXCEPT ![t] = @ - 1]
           /\ UNCHANGED <<pc, releases, taken>>
\* the main handle goes when everybody has own ones (or doesn't need them)
MayDrop(t) == t = Main /\ own[t] = 1 => \A u \in Threads \ {Main} : left[u] < MaxCopies
Drop(t) == /\ pc[t] = "idle" /\ own[t] > 0 /\ MayDrop(t)
           /\ pc' = [pc EXCEPT ![t] = "dropping"] /\ UNCHANGED <<n, own, left, releases, taken>>
DropLoad(t) == /\ pc[t] = "dropping"
               /\ pc' = [pc EXCEPT ![t] = IF n = 1 THEN "release" ELSE "decrement"]
               /\ UNCHANGED <<n, own, left, releases, taken>>
Decrement(t) == /\ pc[t] = "decrement"
                /\ n' = n - 1
                /\ pc' = [pc EXCEPT ![t] = IF n > 1 THEN "leave" ELSE "release"]
                /\ UNCHANGED <<own, left, releases, taken>>
Release(t) == /\ pc[t] = "release"
              /\ releases' = releases + 1 /\ pc' = [pc EXCEPT ![t] = "leave"] /\ taken' = taken \ {t}
              /\ UNCHANGED <<n, own, left>>
Leave(t) == /\ pc[t] = "leave"
            /\ own' = [own EXCEPT ![t] = @ - 1] /\ pc' = [pc EXCEPT ![t] = "idle"]
            /\ UNCHANGED <<n, left, releases, taken>>
Alter(t) == /\ pc[t] = "idle" /\ own[t] > 0 /\ t \notin taken /\ MayDrop(t)
            /\ pc' = [pc EXCEPT ![t] = "altering"] /\ UNCHANGED <<n, own, left, releases, taken>>
AlterLoad(t) == /\ pc[t] = "altering"
                /\ IF n = 1 THEN taken' = taken \cup {t} /\ pc' = [pc EXCEPT ![t] = "idle"]
                   ELSE pc' = [pc EXCEPT ![t] = "copying"] /\ UNCHANGED taken
                /\ UNCHANGED <<n, own, left, releases>>
Copying(t) == /\ pc[t] = "copying"
              /\ pc' = [pc EXCEPT ![t] = "dropping"]
              /\ UNCHANGED <<n, own, left, releases, taken>>
Share(t) == /\ pc[t] = "idle" /\ t \in taken /\ taken' = taken \ {t}
            /\ UNCHANGED <<n, own, pc, left, releases>>
Next == \E t \in Threads : \/ Copy(t) \/ Drop(t) \/ DropLoad(t) \/ Decrement(t) \/ Release(t) \/ Leave(t)
                           \/ Alter(t) \/ AlterLoad(t) \/ Copying(t) \/ Share(t)
Spec == Init /\ [][Next]_vars

RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN own[t] + Sum(S \ {t})
Owners == Sum(Threads)
Pending == Cardinality({t \in Threads : pc[t] # "idle"})
Once == releases <= 1
\* nobody has or is going to touch what is released
NoUseAfter == releases > 0 => Owners = Pending /\ \A t \in Threads : pc[t] \in {"idle", "leave"}
NoLeak == Owners = 0 => releases = 1
Exclusive == \A t \in taken : pc[t] = "idle" => Owners - Pending = 1 /\ own[t] = 1

Implemented == INSTANCE SharingSpec WITH
  s <- [held |-> Owners - Pending, pend |-> Pending, freed |-> releases > 0, own |-> taken # {}, want |-> 0]
Implements == Implemented!Spec
=============================================================================

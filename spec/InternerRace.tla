---------------------------- MODULE InternerRace -----------------------------
(***************************************************************************)
(* Several threads creating and looking up identities at the same time.    *)
(* Each thread runs a program of operations                                *)
(*   new k    identity of key k                                            *)
(*   fake k   a unique identity with key k                                 *)
(*   get      looks up the identity obtained last                          *)
(* in small steps under a read-write lock, as the implementation does:     *)
(* looking for the key, adding the entry and recording its number are      *)
(* separate steps.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.VERIF_CFG)
VARIABLES prog,                    \* the operations of every thread
          pc, at,                  \* phase and current operation of every thread
          writer, readers,         \* the lock
          known, entries,          \* key -> number, entries by number
          got,                     \* numbers obtained by every thread
          seen                     \* keys looked up by every thread
vars == <<prog, pc, at, writer, readers, known, entries, got, seen>>
T == DOMAIN prog
Keys == 1..Cfg.keys

Init == /\ \E i \in DOMAIN Cfg.progs : prog = Cfg.progs[i]
        /\ pc = [t \in T |-> "idle"] /\ at = [t \in T |-> 1]
        /\ writer = 0 /\ readers = {}
        /\ known = [k \in Keys |-> 0] /\ entries = <<>>
        /\ got = [t \in T |-> <<>>] /\ seen = [t \in T |-> <<>>]

Op(t) == prog[t][at[t]]
Busy(t) == at[t] <= Len(prog[t])
Finish(t) == pc' = [pc EXCEPT ![t] = "idle"] /\ at' = [at EXCEPT ![t] = @ + 1]

Lock(t) == /\ Busy(t) /\ pc[t] = "idle" /\ Op(t)[1] \in {"new", "fake"}
           /\ writer = 0 /\ readers = {}
           /\ writer' = t
           /\ pc' = [pc EXCEPT ![t] = IF Op(t)[1] = "new" THEN "check" ELSE "push"]
           /\ UNCHANGED <<prog, at, readers, known, entries, got, seen>>
Check(t) == /\ pc[t] = "check"
            /\ LET n == known[Op(t)[2]] IN
               IF n # 0
               THEN pc' = [pc EXCEPT ![t] = "unlock"] /\ got' = [got EXCEPT ![t] = Append(@, n)]
               ELSE pc' = [pc EXCEPT ![t] = "push"] /\ UNCHANGED got
            /\ UNCHANGED <<prog, at, writer, readers, known, entries, seen>>
Push(t) == /\ pc[t] = "push"
           /\ entries' = Append(entries, Op(t)[2])
           /\ got' = [got EXCEPT ![t] = Append(@, Len(entries) + 1)]
           /\ pc' = [pc EXCEPT ![t] = IF Op(t)[1] = "new" THEN "record" ELSE "unlock"]
           /\ UNCHANGED <<prog, at, writer, readers, known, seen>>
Record(t) == /\ pc[t] = "record"
             /\ known' = [known EXCEPT ![Op(t)[2]] = got[t][Len(got[t])]]
             /\ pc' = [pc EXCEPT ![t] = "unlock"]
             /\ UNCHANGED <<prog, at, writer, readers, entries, got, seen>>
Unlock(t) == /\ pc[t] = "unlock" /\ writer' = 0 /\ Finish(t)
             /\ UNCHANGED <<prog, readers, known, entries, got, seen>>
RLock(t) == /\ Busy(t) /\ pc[t] = "idle" /\ Op(t)[1] = "get" /\ writer = 0
            /\ readers' = readers \cup {t} /\ pc' = [pc EXCEPT ![t] = "read"]
            /\ UNCHANGED <<prog, at, writer, known, entries, got, seen>>
Read(t) == /\ pc[t] = "read" /\ readers' = readers \ {t} /\ Finish(t)
           /\ seen' = [seen EXCEPT ![t] = Append(@, entries[got[t][Len(got[t])]])]
           /\ UNCHANGED <<prog, writer, known, entries, got>>
Next == \E t \in T : Lock(t) \/ Check(t) \/ Push(t) \/ Record(t) \/ Unlock(t) \/ RLock(t) \/ Read(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Exclusive == writer # 0 => readers = {}
\* The recorded numbers are those of the entries, one per key.
Bijection == writer = 0 => \A k \in Keys :
  /\ known[k] # 0 => entries[known[k]] = k
  /\ \A j \in Keys : known[j] = known[k] /\ known[j] # 0 => j = k
\* The operation that produced the j-th number of thread t.
Makers(t) == SelectSeq(prog[t], LAMBDA o : o[1] # "get")
Agree == \A t, u \in T : \A i \in DOMAIN got[t], j \in DOMAIN got[u] :
  LET a == Makers(t)[i]  b == Makers(u)[j] IN
  (got[t][i] = got[u][j]) <=> (<<t, i>> = <<u, j>> \/ (a[1] = "new" /\ b[1] = "new" /\ a[2] = b[2]))
Resolves == \A t \in T : \A i \in DOMAIN got[t] : entries[got[t][i]] = Makers(t)[i][2]
AllDone == \A t \in T : ~Busy(t)
Terminates == <>AllDone
\* What the threads may observe: which of their identities are the same.
Emit == ~AllDone \/ PrintT(ToJson(<<prog, [t \in T |-> [i \in DOMAIN got[t] |->
   IF Makers(t)[i][1] = "new" THEN Makers(t)[i][2] ELSE 0]], seen>>))
View == IF AllDone THEN <<prog, "done", seen>> ELSE vars
=============================================================================

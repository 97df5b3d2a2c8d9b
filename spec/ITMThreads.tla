----------------------------- MODULE ITMThreads -----------------------------
(***************************************************************************)
(* Two threads of one process, each working on parameter sets and lists of *)
(* its own.  A call is not atomic: it runs in Segs pieces, and between any *)
(* two pieces the processor may be taken away (at most ITM_SWITCH times).  *)
(* Each piece adds to the work in progress of the call; the last one hands *)
(* it out.  The work in progress belongs to the thread, so what a call     *)
(* hands out is a function of the thread's own program: Isolated.          *)
(* With ITM_SCRATCH = "one" the work in progress is one place used by all  *)
(* threads (a module-level buffer); Isolated is then violated, which the   *)
(* check asks TLC to confirm, so the schedules here are ones that tell.    *)
(* TLC enumerates every schedule; the driver runs each with real threads.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Programs == [area   |-> <<"prep", "ask", "quant">>,
             p2p    |-> <<"prep", "quant", "prep2">>,
             tools  |-> <<"view", "line", "rough">>,
             runner |-> <<"run">>]
Pairs == {<<"area", "area">>, <<"area", "p2p">>, <<"p2p", "p2p">>, <<"p2p", "tools">>, <<"tools", "tools">>,
          <<"runner", "runner">>}
Segs    == 3
Most    == atoi(IOEnv.ITM_SWITCH)
Private == IOEnv.ITM_SCRATCH = "own"

VARIABLES pair, at, n, left, work, out, h
vars == <<pair, at, n, left, work, out, h>>

Len_(i)  == Segs * Len(Programs[pair[i]])
Place(i) == IF Private THEN i ELSE 1
Piece(i, k) == <<i, Programs[pair[i]][(k - 1) \div Segs + 1], (k - 1) % Segs>>

Init == /\ pair \in Pairs
        /\ at \in {1, 2}
        /\ n = <<0, 0>> /\ left = Most
        /\ work = << <<>>, <<>> >> /\ out = << <<>>, <<>> >>
        /\ h = << >>

(* One piece of the call the running thread is in.                         *)
Run ==
  LET k == n[at] + 1
      w == IF (k - 1) % Segs = 0 THEN <<Piece(at, k)>> ELSE Append(work[Place(at)], Piece(at, k))
  IN  /\ n[at] < Len_(at)
      /\ n' = [n EXCEPT ![at] = k]
      /\ work' = [work EXCEPT ![Place(at)] = w]
      /\ out' = IF k % Segs = 0 THEN [out EXCEPT ![at] = Append(@, w)] ELSE out
      /\ UNCHANGED <<pair, at, left, h>>

(* The other thread gets the processor, though this one is not done.       *)
Preempt ==
  /\ left > 0 /\ n[at] > 0 /\ n[at] < Len_(at) /\ n[3 - at] < Len_(3 - at)
  /\ left' = left - 1
  /\ h' = Append(h, <<at, n[at]>>)
  /\ at' = 3 - at
  /\ UNCHANGED <<pair, n, work, out>>

(* ... or because this one is done.                                        *)
Yield ==
  /\ n[at] = Len_(at) /\ n[3 - at] < Len_(3 - at)
  /\ at' = 3 - at
  /\ UNCHANGED <<pair, n, left, work, out, h>>

Next == Run \/ Preempt \/ Yield
Spec == Init /\ [][Next]_vars

(* What a thread has been given depends only on its own program.           *)
Isolated == \A i \in 1..2 : \A c \in DOMAIN out[i] :
              out[i][c] = [k \in 1..Segs |-> Piece(i, (c - 1) * Segs + k)]
Finished == \A i \in 1..2 : n[i] = Len_(i)
(* who began: the first to be preempted, or, with no preemption, the other of the one that ends *)
First == IF h = <<>> THEN 3 - at ELSE h[1][1]
Emit == Finished => PrintT("CASE " \o ToJson([pair |-> pair, first |-> First, h |-> h]))
=============================================================================

---------------------------- MODULE ITMInterleave ----------------------------
(***************************************************************************)
(* Two sessions sharing one process.  Each runs its own program of calls;  *)
(* TLC enumerates every interleaving.  A session's observations must be a  *)
(* function of its own program alone, so in the model each session carries *)
(* its own state and the answers are compared with those of a solo run.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Programs == [area |-> <<"prep", "ask", "quant", "probe", "ask", "quant">>,
             p2p  |-> <<"prep", "quant", "probe", "quant", "prep2", "quant">>]
Pairs == {<<"area", "area">>, <<"area", "p2p">>, <<"p2p", "p2p">>}

VARIABLES pair, pc, own, done
vars == <<pair, pc, own, done>>

Init == /\ pair \in Pairs
        /\ pc = <<0, 0>> /\ own = << <<>>, <<>> >> /\ done = <<>>

Step(i) ==
  LET prog == Programs[pair[i]]
  IN  /\ pc[i] < Len(prog)
      /\ pc' = [pc EXCEPT ![i] = @ + 1]
      /\ own' = [own EXCEPT ![i] = Append(@, prog[pc[i] + 1])]
      /\ done' = Append(done, i)
      /\ UNCHANGED pair
Next == Step(1) \/ Step(2)
Spec == Init /\ [][Next]_vars

(* What a session has seen depends only on how far its program has got.    *)
Isolated == \A i \in 1..2 : own[i] = SubSeq(Programs[pair[i]], 1, pc[i])
Finished == \A i \in 1..2 : pc[i] = Len(Programs[pair[i]])
Emit == Finished => PrintT("CASE " \o ToJson([pair |-> pair, h |-> done]))
=============================================================================

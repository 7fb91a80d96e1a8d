------------------------------ MODULE Machine -------------------------------
(***************************************************************************)
(* Bounded exploration of the specification.                               *)
(*                                                                         *)
(* A behaviour is one of the sequences Setups, followed by at most Depth moves.  In      *)
(* every state the operations of Probes are tried too; they leave the      *)
(* state as it is.  Law(h, St, op, X) states a property of the outcome X of   *)
(* op in St (reached by h) in its own terms, and is checked for every move and probe;     *)
(* StateLaw for every state.                                               *)
(*                                                                         *)
(* Every behaviour explored (a witness for every transition of the bounded *)
(* state graph, with the probes at its end) is printed, and replayed on    *)
(* the library by the harness.                                             *)
(***************************************************************************)
EXTENDS Build

CONSTANTS Setups(_), Moves(_), Probes(_), Depth, Law(_, _, _, _), StateLaw(_)

VARIABLES st, hist, depth
vars == <<st, hist, depth>>
View == <<IF depth < 0 THEN hist ELSE <<>>, st, depth>>

Emit(h, s) == PrintT(<<"CASE", ToJson(h), ToJson(Probes(s))>>)
Holds_(h, St, op, X) == IF Law(h, St, op, X) THEN TRUE
                     ELSE PrintT(<<"BROKEN", ToJson(h), ToJson(op), ToJson(X.r)>>) /\ FALSE

Init == LET ss == TLCEval(Setups(0))
        IN \E j \in DOMAIN ss : hist = ss[j] /\ depth = -1 /\ st = InitSt

Start == /\ depth = -1
         /\ depth' = 0
         /\ hist' = hist
         /\ st' = RunAll(InitSt, hist)
         /\ Emit(hist, st')

Move == /\ depth >= 0 /\ depth < Depth
        /\ LET ms == TLCEval(Moves(st)) IN \E j \in DOMAIN ms :
             LET op == ms[j]
                 X  == TLCEval(Step(st, op))
             IN /\ Assert(Holds_(hist, st, op, X), "law")
                /\ st' = After1(st, op, X)
                /\ hist' = Append(hist, op)
                /\ depth' = depth + 1
                /\ Emit(hist', st')

Next == Start \/ Move
Spec == Init /\ [][Next]_vars

Inv == IF depth < 0 THEN TRUE
       ELSE /\ StateLaw(st)
            /\ LET ps == TLCEval(Probes(st))
               IN \A j \in DOMAIN ps : Holds_(hist, st, ps[j], TLCEval(Step(st, ps[j])))

NoMoves(St) == <<>>
NoProbes(St) == <<>>
AnyState(St) == TRUE
NoLaw(h, St, op, X) == TRUE
=============================================================================

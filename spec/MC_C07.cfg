SPECIFICATION Spec
CONSTANTS Setups <- C07Setups
 Moves <- NoMoves
 Probes <- C07Probes
 Depth = 0
 Law <- C07Law
 StateLaw <- AnyState
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE

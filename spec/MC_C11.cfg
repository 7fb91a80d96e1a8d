SPECIFICATION Spec
CONSTANTS Setups <- C11Setups
 Moves <- NoMoves
 Probes <- C11Probes
 Depth = 0
 Law <- C11Law
 StateLaw <- AnyState
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Setups <- C24Setups
 Moves <- NoMoves
 Probes <- C24Probes
 Depth = 0
 Law <- C24Law
 StateLaw <- AnyState
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE

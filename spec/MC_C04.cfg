SPECIFICATION Spec
CONSTANTS Setups <- C04All
 Moves <- NoMoves
 Probes <- C04Probes
 Depth = 0
 Law <- C04Law
 StateLaw <- AnyState
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE

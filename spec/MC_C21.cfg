SPECIFICATION Spec
CONSTANTS Setups <- C21Setups
 Moves <- NoMoves
 Probes <- C21Probes
 Depth = 0
 Law <- C21Law
 StateLaw <- AnyState
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Setups <- C01Setups
 Moves <- NoMoves
 Probes <- C01Probes
 Depth = 0
 Law <- C01Law
 StateLaw <- AnyState
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE

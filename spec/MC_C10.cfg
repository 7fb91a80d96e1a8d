SPECIFICATION Spec
CONSTANTS Setups <- C10Setups
 Moves <- NoMoves
 Probes <- C10Probes
 Depth = 0
 Law <- C10Law
 StateLaw <- AnyState
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE

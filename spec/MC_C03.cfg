SPECIFICATION Spec
CONSTANTS Setups <- C03Setups
 Moves <- NoMoves
 Probes <- C03Probes
 Depth = 0
 Law <- C03Law
 StateLaw <- AnyState
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE

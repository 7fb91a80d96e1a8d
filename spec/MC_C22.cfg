SPECIFICATION Spec
CONSTANTS Setups <- C22Setups
 Moves <- NoMoves
 Probes <- C22Probes
 Depth = 0
 Law <- C22Law
 StateLaw <- AnyState
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE

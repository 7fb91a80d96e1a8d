SPECIFICATION Spec
CONSTANTS Setups <- C08Setups
 Moves <- NoMoves
 Probes <- C08Probes
 Depth = 0
 Law <- C08Law
 StateLaw <- AnyState
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Setups <- C06Setups
 Moves <- NoMoves
 Probes <- C06Probes
 Depth = 0
 Law <- C06Law
 StateLaw <- AnyState
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE

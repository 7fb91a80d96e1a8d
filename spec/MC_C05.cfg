SPECIFICATION Spec
CONSTANTS Setups <- C05Quick
 Moves <- NoMoves
 Probes <- C05Probes
 Depth = 0
 Law <- C05Law
 StateLaw <- AnyState
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE

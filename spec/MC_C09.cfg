SPECIFICATION Spec
CONSTANTS Setups <- C09Setups
 Moves <- C09Moves
 Probes <- C09Probes
 Depth = 1
 Law <- C09Law
 StateLaw <- AnyState
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Setups <- C02Setups
 Moves <- NoMoves
 Probes <- C02Probes
 Depth = 0
 Law <- C02Law
 StateLaw <- AnyState
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE

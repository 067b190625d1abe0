SPECIFICATION SpecH
CONSTANT Cfg <- MCCfg
INVARIANT NoBad
CHECK_DEADLOCK FALSE

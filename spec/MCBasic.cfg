SPECIFICATION Spec
CONSTANT Cfg <- MCCfg
INVARIANT NoBad Lineage AtEnd Preference
PROPERTY Recorded StaysCancelled

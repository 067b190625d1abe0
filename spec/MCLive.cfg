SPECIFICATION Spec
CONSTANT Cfg <- MCCfg
PROPERTY Termination

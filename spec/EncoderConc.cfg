SPECIFICATION Spec
CONSTANTS MaxCalls = 2 MaxChunks = 3 MaxFaults = 1 MaxSpur = 1 Variant = "ok"
INVARIANT Safety
PROPERTIES Ends Destroyed Refines
CHECK_DEADLOCK FALSE

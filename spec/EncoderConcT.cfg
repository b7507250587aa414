SPECIFICATION Spec
CONSTANTS MaxCalls = 3 MaxChunks = 4 MaxFaults = 3 MaxSpur = 2 Variant = "ok"
INVARIANT Safety
PROPERTIES Ends Destroyed Refines
CHECK_DEADLOCK FALSE

SPECIFICATION GenSpec
CONSTANTS MaxCalls = 3 MaxChunks = 3 MaxFaults = 2 MaxSpur = 0 Variant = "ok"
INVARIANT Safety
CHECK_DEADLOCK FALSE

INIT Init
NEXT Next
INVARIANT Harmless
CONSTANT Steps = 1

SPECIFICATION EffSpec
INVARIANTS TouchedOnly OneStream StreamsLast UsageTouchesNothing
PROPERTY InputsKept
CONSTANT FineLimit = 0
CONSTANT Size = 1

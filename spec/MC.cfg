INIT MCInit
NEXT MCNext
INVARIANTS AnswerOrMessage UsageStatus AllOrNothing Nested MaskedRightly MaskedHidden SortedWhenAsked SettingsFromLayers Blanks0 StylesOnly Emit
CONSTANT FineLimit = 0
CONSTANT Size = 1

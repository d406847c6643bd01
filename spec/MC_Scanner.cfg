SPECIFICATION Spec
INVARIANTS MachineIsGrammar BerIsCuts IngIsCuts FramesNested FormsAgree
PROPERTIES NeverTakenBack Ends
CONSTANT Longest = 4
CONSTANT Which = "ber"

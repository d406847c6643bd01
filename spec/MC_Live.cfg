SPECIFICATION MCSpec
PROPERTY Termination
CONSTANT FineLimit = 0
CONSTANT Size = 1

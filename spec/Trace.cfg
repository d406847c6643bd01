INIT TraceInit
NEXT TraceNext
VIEW TraceView
INVARIANTS Consistent Conforms
CONSTANT FineLimit = 40
ALIAS Brief

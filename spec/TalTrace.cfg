SPECIFICATION Spec
CONSTANT AskR <- TraceAsk
VIEW TraceView
CHECK_DEADLOCK FALSE
INVARIANTS TraceUnwound TraceBalanced TraceLimited

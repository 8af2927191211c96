SPECIFICATION Spec
CONSTANT AskR <- ExtractAsk
VIEW ExtractView
CHECK_DEADLOCK FALSE
INVARIANTS ExtractUnwound ExtractBalanced

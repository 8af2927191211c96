SPECIFICATION MCSpec
CONSTANT AskR <- MCAsk
CHECK_DEADLOCK FALSE
INVARIANTS MCUnwound MCBalanced MCLimited MCNeutral

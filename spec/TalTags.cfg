SPECIFICATION TagsSpec
CONSTANT AskR <- TagsAsk
CHECK_DEADLOCK FALSE
INVARIANTS NoVoidOpen NoNestedParagraphs NoNestedItems NoBlockInParagraph NothingLost

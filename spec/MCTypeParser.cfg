SPECIFICATION MCPSpec
CONSTANT Definitions <- NoDefinitions
INVARIANTS PTypeOK StepsAgree KindFromExpression FormsAgree DeclaredFacets OrderFree MalformedRejected OthersInOrder RoundTrip Stable OnlyDeclared
PROPERTIES KindIsSettled Frame
CHECK_DEADLOCK FALSE

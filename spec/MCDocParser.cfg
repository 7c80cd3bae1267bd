SPECIFICATION MCDSpec
CHECK_DEADLOCK FALSE
INVARIANTS DStepsAgree Sections Rest DRoundTrip DOnlyDeclared
PROPERTIES DFrame

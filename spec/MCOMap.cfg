SPECIFICATION MCSpec
CONSTANTS
  Keys = {"k1", "k2", "k3"}
  Vals = {"v1", "v2"}
  NilVal = "nil"
INVARIANTS TypeOK UniqueKeys IndexAgrees CondInsertIsPut FormsCarryEntries
PROPERTIES PutMovesToEnd ReplaceKeepsPlace DeleteClosesGap NilInsertIsNoop ModeIsIndependent
CHECK_DEADLOCK FALSE

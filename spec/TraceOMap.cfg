SPECIFICATION TraceSpec
CONSTANTS
  Keys = {"k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8", "k9"}
  Vals = {"v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8"}
  NilVal = "nil"
INVARIANTS UniqueKeys IndexAgrees
POSTCONDITION AcceptedOrReported
CHECK_DEADLOCK FALSE

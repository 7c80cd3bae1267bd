SPECIFICATION BSpec
INVARIANTS Independent Reports KindFixed
CHECK_DEADLOCK FALSE

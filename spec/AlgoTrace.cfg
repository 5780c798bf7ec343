SPECIFICATION TSpec
CONSTANT Input <- TraceInput
CONSTRAINT Narrow
INVARIANT Report
CHECK_DEADLOCK FALSE

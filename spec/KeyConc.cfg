SPECIFICATION Spec
CONSTANTS
  TraceFile = "traces.ndjson"
  Diagnose = FALSE
  Enforce = {"C01", "C09", "C10", "C19", "C24"}
INVARIANTS Report Unique
CHECK_DEADLOCK FALSE

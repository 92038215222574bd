SPECIFICATION Spec
CONSTANTS
  TraceFile = "traces.ndjson"
  Diagnose = FALSE
INVARIANTS Report AtMostOne
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  TraceFile = "traces.ndjson"
  LoadedFile = "loaded.ndjson"
  Pass = 1
  MaxPend = 8
INVARIANT Report
CHECK_DEADLOCK FALSE

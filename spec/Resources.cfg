SPECIFICATION Spec
CONSTANTS
  FilesPerKey = 4
  WorkersPerKey = 16
CONSTRAINT Told
CHECK_DEADLOCK FALSE

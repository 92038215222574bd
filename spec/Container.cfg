SPECIFICATION Spec
CONSTANTS
  Addrs = {"a", "b", "c"}
  Tags = {"x", "y"}
  Keys = {1, 2}
  Amounts = {0, 1, 3}
  Seqs = {0, 2}
  MaxSeq = 5
  MaxBor = 4
  Formats = {}
VIEW view
INVARIANT TypeOK
PROPERTY Faithful
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE

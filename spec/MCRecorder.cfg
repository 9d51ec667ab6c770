SPECIFICATION Spec
CONSTANTS
  Streams = {1, 2, 3}
  Times = {1, 2}
  Types = {1, 2, 3}
  MaxLen = 4
  MaxRecs = 4
  MaxFiles = 2
  Ops = {"create", "cbegin", "purge", "active", "attach", "open", "write", "close", "wait", "sync"}
  KeepHist = FALSE
INVARIANTS Inv
PROPERTIES CloseCollects FilesStable
VIEW View
CHECK_DEADLOCK FALSE

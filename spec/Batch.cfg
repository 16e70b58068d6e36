SPECIFICATION Spec
CONSTANTS
  Programs <- BatchPrograms
  Alphabets <- BatchAlphabets
  MaxPass = 18
  MaxLoop = 600
INVARIANTS
  TypeOK
  OutputLast
  FinalStable
  FinalResolved
  Contiguous
  Shortest
  BytesOk
  Report
PROPERTIES
  SectionsIsolate
  Grows
CHECK_DEADLOCK FALSE

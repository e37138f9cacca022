CONSTANTS
  SPM = 2
  MPH = 2
  HPD = 2
  MinYear = 1971
  MaxYear = 1972
  Tab <- TabDef
  FieldValues <- FieldValuesDef
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS BuildsWhatExists OneVerdict YearTooLate ReadsBack StartOfPeriod
PROPERTIES BuildKeeps

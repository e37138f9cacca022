CONSTANTS
  SPM = 60
  MPH = 60
  HPD = 24
  MinYear = 0
  MaxYear = 9999
  Tab <- RealTab
  FieldValues <- NoValues
SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
INVARIANTS BuildsWhatExists OneVerdict YearTooLate ReadsBack StartOfPeriod Emit

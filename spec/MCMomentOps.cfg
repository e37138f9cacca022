CONSTANTS
  SPM = 2
  MPH = 1
  HPD = 3
  MinYear = 1971
  MaxYear = 1972
  Tab <- TabDef
  Starts <- StartsDef
  YearArgs <- YearArgsDef
  MonthArgs <- MonthArgsDef
  DayArgs <- DayArgsDef
  HourArgs <- HourArgsDef
  MinuteArgs <- MinuteArgsDef
  SecondArgs <- SecondArgsDef
SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS AlwaysExists CarrySmall NoExcess
PROPERTIES RestKept ApplyMovesOn FailKeeps

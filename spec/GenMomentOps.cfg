CONSTANTS
  SPM = 60
  MPH = 60
  HPD = 24
  MinYear = 0
  MaxYear = 9999
  Tab <- RealTab
  Starts = {}
  YearArgs = {}
  MonthArgs = {}
  DayArgs = {}
  HourArgs = {}
  MinuteArgs = {}
  SecondArgs = {}
SPECIFICATION GenSpec
CHECK_DEADLOCK FALSE
INVARIANTS AlwaysExists CarrySmall Emit

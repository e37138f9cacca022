CONSTANTS
  SPM = 60
  MPH = 60
  HPD = 24
  MinYear = 0
  MaxYear = 9999
SPECIFICATION Spec
CHECK_DEADLOCK FALSE

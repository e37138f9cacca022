SPECIFICATION Spec
CONSTANTS FirstYear = 0
 LastYear = 400
INVARIANTS TypeOK NumberOfDate DateOfNumber YearOfNumber DayOfYear Cycle Julian Anchor
CHECK_DEADLOCK FALSE

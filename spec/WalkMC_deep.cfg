SPECIFICATION Spec
CONSTANTS MaxRows = 5 MaxGap = 2 MaxSkip = 4 MaxTake = 4
INVARIANTS XlsxMeaning XlsbMeaning Agree Ordered Limited Dense Progress
PROPERTY Monotone
CHECK_DEADLOCK FALSE

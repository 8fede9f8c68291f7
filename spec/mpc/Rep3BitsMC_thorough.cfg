SPECIFICATION Spec
CONSTANTS MaxP = 260
 MaxW = 8
 MaxN = 13
INVARIANTS AddRight CompareRight SumRight ZeroRight SortRight
CHECK_DEADLOCK FALSE

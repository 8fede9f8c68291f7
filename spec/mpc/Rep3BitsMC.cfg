SPECIFICATION Spec
CONSTANTS MaxP = 70
 MaxW = 6
 MaxN = 9
INVARIANTS AddRight CompareRight SumRight ZeroRight SortRight
CHECK_DEADLOCK FALSE

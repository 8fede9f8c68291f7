SPECIFICATION Spec
CONSTANTS MaxIdx = 5
 MaxTab = 17
 MaxN = 4
 MaxBits = 2
INVARIANTS OhvRight ReadRight ReadLowRight SharedReadRight WriteRight SortRight PlaceRight
CHECK_DEADLOCK FALSE

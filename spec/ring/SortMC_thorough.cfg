SPECIFICATION Spec
CONSTANTS MaxIdx = 7
 MaxTab = 40
 MaxN = 4
 MaxBits = 3
INVARIANTS OhvRight ReadRight ReadLowRight SharedReadRight WriteRight SortRight PlaceRight
CHECK_DEADLOCK FALSE

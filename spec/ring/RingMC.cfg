SPECIFICATION Spec
CONSTANTS MaxK = 3
 MaxDivK = 6
 MaxLimbK = 9
INVARIANTS ProductRight ToBits FromBits CompareRight InjectRight Narrow NarrowBits WidenLocal WidenBits DivRight ShiftDiv LimbsRight
CHECK_DEADLOCK FALSE

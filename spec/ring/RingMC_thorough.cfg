SPECIFICATION Spec
CONSTANTS MaxK = 4
 MaxDivK = 8
 MaxLimbK = 13
INVARIANTS ProductRight ToBits FromBits CompareRight InjectRight Narrow NarrowBits WidenLocal WidenBits DivRight ShiftDiv LimbsRight
CHECK_DEADLOCK FALSE

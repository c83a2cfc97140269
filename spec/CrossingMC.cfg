CONSTANTS MaxN = 3 MaxM = 3
INIT Init
NEXT Next
INVARIANTS DefOK BoundedOK FreeOK InfeasibleOK ReflectOK TrivialOK PlacesOK LineOK CutOK TightenOK
CHECK_DEADLOCK FALSE

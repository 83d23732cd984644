SPECIFICATION Spec
CONSTANTS
  Prop = "ALL"
  Image <- ImageRec
  LookupIn <- FastLookupIn
  DataUnits <- FastDataUnits
VIEW View
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

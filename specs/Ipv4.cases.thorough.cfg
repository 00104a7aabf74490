CONSTANTS
  Texts = {}
  Numbers = {}
  Ports = {}
  Ch = {46, 48, 50, 120}
  MaxLen = 8
  Fields <- SomeFields
SPECIFICATION CaseSpec
INVARIANTS TypeOK RoundTrip
ACTION_CONSTRAINT EmitCase
CHECK_DEADLOCK FALSE

CONSTANTS
  Texts <- SomeTexts
  Numbers <- SomeNumbers
  Ports = {0, 8080, 65535}
  Ch = {}
  MaxLen = 0
  Fields = {}
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK RoundTrip
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANTS Same RoundTrip Map
PROPERTY Fails
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet = {97, 61, 59, 37, 50}
  MaxText = 7
  SEP = 59
  PSEP = 59

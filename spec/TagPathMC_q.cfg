SPECIFICATION Spec
INVARIANTS Same RoundTrip Map
PROPERTY Fails
CHECK_DEADLOCK FALSE
CONSTANTS
  Alphabet = {97, 61, 63, 38, 37, 50}
  MaxText = 6
  SEP = 63
  PSEP = 38

SPECIFICATION Spec
CONSTANTS
 base = 3
 maxlen = 3
INVARIANTS Functional RoundTrip Size Prefix

SPECIFICATION Spec
INVARIANT RoundTrip
PROPERTY Ends
CONSTANTS
    Base = 4
    MaxN = 1100

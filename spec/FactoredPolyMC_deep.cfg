SPECIFICATION MCSpec
CONSTANTS
    Values <- ValuesA
    MaxReal = 3
    MaxPairs = 2
INVARIANTS WellFormed Degree SameValue Mapping
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS
    Values <- ValuesA
    MaxReal = 2
    MaxPairs = 1
INVARIANTS WellFormed Degree SameValue Mapping
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE

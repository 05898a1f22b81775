SPECIFICATION MCSpec
CONSTANTS
    MaxReal = 2
INVARIANTS TransferIsValue Balanced
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS
    MaxReal = 3
INVARIANTS TransferIsValue Balanced
CHECK_DEADLOCK FALSE

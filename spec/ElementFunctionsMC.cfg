SPECIFICATION MCSpec
PROPERTY OneBuffer
CHECK_DEADLOCK FALSE

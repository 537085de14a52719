SPECIFICATION Spec
CONSTANT Property = "all"
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

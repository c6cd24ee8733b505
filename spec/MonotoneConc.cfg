SPECIFICATION Spec
INVARIANT Accepted
CONSTANT Deviations <- InputDeviations
CHECK_DEADLOCK FALSE

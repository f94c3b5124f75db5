SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS StepwiseIsRun Inverse SameStack Balanced
PROPERTY StaysBad

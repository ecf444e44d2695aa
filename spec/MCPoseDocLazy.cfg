SPECIFICATION Spec
INVARIANTS Sound WrittenIsRead Complete
CHECK_DEADLOCK FALSE
CONSTANTS Skip = TRUE
MaxPose = 2
MaxRot = 2

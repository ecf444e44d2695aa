SPECIFICATION Spec
INVARIANTS Sound WrittenIsRead Complete
CHECK_DEADLOCK FALSE
CONSTANTS Skip = FALSE
MaxPose = 3
MaxRot = 4

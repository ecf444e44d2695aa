SPECIFICATION Spec
INVARIANTS InvPose InvCompose InvDisk InvBounds
PROPERTIES DiskStable OthersKeep

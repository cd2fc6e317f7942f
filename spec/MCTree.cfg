SPECIFICATION Spec
CONSTANTS
  N = 3
  NF = 2
  V = 1
  HS = {0, 1}
INVARIANTS PartitionInv MinChildInv DepthInv ColsInv SweepInv RouteInv SizeInv ObjInv LeafInv ValInv
CHECK_DEADLOCK TRUE

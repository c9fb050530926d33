SPECIFICATION Spec
CONSTANTS NObj = 4
 NPatch = 3
 MaxPos = 4
 Reach = 2
 Slack = 0
 Kinds = {"auto", "cross", "local", "localauto"}
INVARIANTS Whole Parts PartIs
CHECK_DEADLOCK FALSE

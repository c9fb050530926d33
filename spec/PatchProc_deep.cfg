SPECIFICATION Spec
CONSTANTS NObj = 5
 NPatch = 3
 MaxPos = 5
 Reach = 2
 Slack = 0
 Kinds = {"auto", "cross", "local", "localauto"}
INVARIANTS Whole Parts PartIs
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
    W = 3
    Cap = 2
    MaxTasks = 3
    MaxFound = 2
    Items = {1, 2}
INVARIANTS AllFound Idle Bounded
PROPERTIES Returns

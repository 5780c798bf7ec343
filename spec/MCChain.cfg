SPECIFICATION Spec
CONSTANTS
    G = 2
    N = 5
    Obst = {1, 2}
INVARIANTS Class Clear Sound Easy
CHECK_DEADLOCK FALSE

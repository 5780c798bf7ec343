SPECIFICATION MCSpec
CONSTANTS
    Input <- Itself
    G = 3
    Sizes <- S4
    Options <- AvoidNear
    Context <- NoContext
    AsClass = FALSE
INVARIANTS Tiled I01 I02 I07 I30
PROPERTIES Steps Merges Ends

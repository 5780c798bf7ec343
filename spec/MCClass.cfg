SPECIFICATION MCSpec
CONSTANTS
    Input <- Itself
    G = 1
    Sizes <- S33
    Options <- AvoidOnly
    Context <- NoContext
    AsClass = TRUE
INVARIANTS Tiled I01 I02 I07 I08 I30
PROPERTIES Steps Merges Ends

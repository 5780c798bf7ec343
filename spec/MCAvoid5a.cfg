SPECIFICATION MCSpec
CONSTANTS
    Input <- Itself
    G = 2
    Sizes <- S5
    Options <- AvoidOne
    Context <- NoContext
    AsClass = FALSE
INVARIANTS Tiled I01 I02 I07 I30
PROPERTIES Steps Merges Ends

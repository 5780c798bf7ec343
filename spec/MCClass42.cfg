SPECIFICATION MCSpec
CONSTANTS
    Input <- Itself
    G = 2
    Sizes <- S42
    Options <- AvoidFour
    Context <- NoContext
    AsClass = TRUE
INVARIANTS Tiled I01 I02 I07 I08 I30
PROPERTIES Steps Merges Ends

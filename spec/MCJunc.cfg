SPECIFICATION MCSpec
CONSTANTS
    Input <- Itself
    G = 1
    Sizes <- S33
    Options <- Vertices
    Context <- NoContext
    AsClass = TRUE
INVARIANTS Tiled I01 I02 I04 I05 I06
PROPERTIES Steps Merges Ends

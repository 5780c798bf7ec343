SPECIFICATION MCSpec
CONSTANTS
    Input <- Itself
    G = 2
    Sizes <- S5
    Options <- Vertices
    Context <- NoContext
    AsClass = FALSE
INVARIANTS Tiled I01 I02 I04 I05
PROPERTIES Steps Merges Ends

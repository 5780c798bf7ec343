SPECIFICATION MCSpec
CONSTANTS
    Input <- Itself
    G = 2
    Sizes <- S4
    Options <- Relations
    Context <- OnePoint
    AsClass = FALSE
INVARIANTS Tiled I01 I02 I09 I10 I11
PROPERTIES Steps Merges Ends

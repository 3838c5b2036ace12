SPECIFICATION Spec
INVARIANTS Inv InvEnd
PROPERTY Tiles

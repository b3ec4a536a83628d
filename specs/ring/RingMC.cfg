SPECIFICATION Spec
CONSTANT M = 8
INVARIANTS TypeOK ClosestOK RangeOK
PROPERTY Exact

SPECIFICATION Spec
VIEW Hide
INVARIANT TypeOk
PROPERTY ScrollConfined MoveOnly Confined
CONSTRAINT Bound
ACTION_CONSTRAINT Emitted
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANT N = 3
INVARIANT TypeOK
INVARIANT Sorted
INVARIANT SeekIsReplay
INVARIANT WalkIsAll
INVARIANT SaveIsWhole
INVARIANT Bounded
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANT NoBad Bounded Restored

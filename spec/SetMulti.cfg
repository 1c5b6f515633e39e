SPECIFICATION MSpec
CONSTANT Prop <- P4
CONSTANT Where <- W4
CONSTANT Val <- V3
CONSTANT Ordered <- O4
INVARIANTS Atomic HonestFailure
PROPERTIES Ends Refines
CHECK_DEADLOCK FALSE

SPECIFICATION MSpec
INVARIANTS Unique InEffect Owed Told NothingLeft Attached
PROPERTIES AllOrNone Restored
VIEW View
CHECK_DEADLOCK FALSE

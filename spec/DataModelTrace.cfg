SPECIFICATION TSpec
CONSTANT Comp <- TComp
INVARIANTS OneOwner RowsUnique RowsRooted
PROPERTIES FailKeeps SetManyAtomic ReadsOnly
POSTCONDITION Report
CHECK_DEADLOCK FALSE

SPECIFICATION MSpec
CONSTANT Comp <- MComp
CONSTRAINT Bound
VIEW View
INVARIANTS OneOwner RowsUnique RowsRooted ReadWhatIsStored WildExact EachOwned
PROPERTIES FailKeeps SetManyAtomic ReadsOnly
CHECK_DEADLOCK FALSE
CONSTANT MaxRows = 1
CONSTANT Wide = FALSE

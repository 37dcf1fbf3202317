CONSTANT MaxLen = 2
SPECIFICATION Spec
CONSTRAINT Bound
VIEW View
INVARIANTS Exclusive Reading ReadsData Encodable
PROPERTIES Safe Locked

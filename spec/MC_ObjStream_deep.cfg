CONSTANT MaxLen = 3
SPECIFICATION Spec
CONSTRAINT Bound
VIEW View
INVARIANTS Exclusive Reading ReadsData Encodable
PROPERTIES Safe Locked

SPECIFICATION Spec
CONSTANTS Nums = {1, 2}  Bodies = {"p", "q"}  MaxRevs = 3  Max = 2
INVARIANTS Means Remembers NoMore Recursive
CHECK_DEADLOCK FALSE

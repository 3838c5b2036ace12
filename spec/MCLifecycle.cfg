SPECIFICATION Spec
CONSTANT MaxCalls = 3
INVARIANTS SolveAfterBefore OnceEach Ready Deadlockless
PROPERTY CallsReturn

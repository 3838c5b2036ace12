SPECIFICATION MSpec
CONSTANTS Ref <- MCRef
          MaxOps = 5
INVARIANTS Same Emit

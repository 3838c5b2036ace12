SPECIFICATION Spec
CONSTANTS K = 1
  Topos = {1, 2, 3, 4, 5, 8}
INVARIANTS CertSound FarkasSound Priority

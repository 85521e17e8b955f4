SPECIFICATION Spec
CONSTANTS
  NcVals = {1, 2}
  NfVals = {0, 1, 2}
  Masses = {1, 2}
  Gluons = {1}
  Ids = {1}
  MaxQ = 2
  D = 6
  Leak = FALSE
INVARIANTS RatioCoherent CurrentSettings NoFlavors Additive OneEntry
PROPERTIES NonInterference

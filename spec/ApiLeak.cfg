SPECIFICATION Spec
CONSTANTS
  NcVals = {1, 2}
  NfVals = {0, 1}
  Masses = {1}
  Gluons = {1}
  Ids = {1}
  MaxQ = 1
  D = 6
  Leak = TRUE
INVARIANTS RatioCoherent CurrentSettings Additive
PROPERTIES NonInterference

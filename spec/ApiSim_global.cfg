SPECIFICATION SSpec
CONSTANTS
  NcVals = {1, 2, 3, 4, 7, 12, 1000}
  NfVals = {0, 1, 2, 3, 4, 6, 16, 300}
  Masses = {1, 2, 3, 4, 5}
  Gluons = {1, 2, 3, 4}
  Ids = {1, 2, 3}
  MaxQ = 5
  D = 1
  Leak = FALSE
  MaxSteps = 40
  Mode = "global"
  Points = {1, 2, 3, 4, 5, 6}

SPECIFICATION WSpec
CONSTANTS Ncs = {1, 2, 3, 4, 12, 100} Ms = {0, 3, 4, 12} Ts = {0, 1, 2, 8} MuMax = 13 Walk = 60
INVARIANTS Vanishes

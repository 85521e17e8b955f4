SPECIFICATION Spec
CONSTANTS Ncs = {1, 2, 3, 7, 12} Ms = {0, 3, 5, 12} Ts = {0, 1, 2, 5, 16} MuMax = 13 Walk = 0
INVARIANTS Vanishes Injective
PROPERTIES Odd Even Rises Heats Lightens
VIEW View

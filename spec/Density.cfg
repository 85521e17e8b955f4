SPECIFICATION Spec
CONSTANTS Ncs = {1, 3, 4} Ms = {0, 3, 4} Ts = {0, 1, 3, 8} MuMax = 5 Walk = 0
INVARIANTS Vanishes Injective
PROPERTIES Odd Even Rises Heats Lightens
VIEW View

SPECIFICATION Spec
INVARIANTS Certified Bounded ZeroNever First
CONSTANTS
 Guesses <- GuessesC
 Values <- ValuesC
 VDen = 5
 MaxIters = {0, 1, 2}

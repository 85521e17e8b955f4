SPECIFICATION Spec
INVARIANTS Certified Bounded ZeroNever First
CONSTANTS
 Guesses <- GuessesR
 Values <- ValuesR
 VDen = 5
 MaxIters = {4}

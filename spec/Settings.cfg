SPECIFICATION Spec
INVARIANTS TypeOK RatioCoherent NeverBad
PROPERTY OneAtATime

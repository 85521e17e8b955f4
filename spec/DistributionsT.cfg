SPECIFICATION Spec
CONSTANTS EMax = 6 BMax = 4 KMax = 7 Phases = {0, 1, 2, 3}
INVARIANTS InverseRelation UnitInterval HalfAtMu ZeroChempot Emit
PROPERTIES ShiftInvariant ScaleInvariant ParticleHole TwoSided Decreasing Multiplicative Approaches

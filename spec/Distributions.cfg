SPECIFICATION Spec
CONSTANTS EMax = 3 BMax = 2 KMax = 6 Phases = {0, 1, 3}
INVARIANTS InverseRelation UnitInterval HalfAtMu ZeroChempot Emit
PROPERTIES ShiftInvariant ScaleInvariant ParticleHole TwoSided Decreasing Multiplicative Approaches

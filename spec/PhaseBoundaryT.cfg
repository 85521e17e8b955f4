SPECIFICATION Spec
CONSTANTS MuMax = 5 TMax = 3
INVARIANTS ReduceIsScan Idempotent ScanIsDeclarative Monotone BoundaryConfined ColdConfined Emit
PROPERTY EndedStays

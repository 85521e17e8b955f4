SPECIFICATION Spec
CONSTANTS MuMax = 4 TMax = 2
INVARIANTS ReduceIsScan Idempotent ScanIsDeclarative Monotone BoundaryConfined ColdConfined Emit
PROPERTY EndedStays

SPECIFICATION Spec
INVARIANTS WellDefined Involutive Emit

SPECIFICATION Spec
CONSTANTS MaxOps = 2
 Inits = 1
 Emit = FALSE
INVARIANT Conform LabelsKept NoNewSamples
VIEW View
CHECK_DEADLOCK FALSE

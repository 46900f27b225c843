SPECIFICATION Spec
CONSTANTS MaxSections = 2
          MaxBasis = 12
INVARIANTS ReadsWhatWasWritten Truncation Emit
CHECK_DEADLOCK FALSE

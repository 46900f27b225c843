SPECIFICATION Spec
CONSTANTS MaxSections = 3
          MaxBasis = 17
INVARIANTS ReadsWhatWasWritten Truncation Emit
CHECK_DEADLOCK FALSE

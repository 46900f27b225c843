SPECIFICATION Spec
CONSTANTS Puns_ = {"", "m.pun", "m.7", "a b/m.orb", "m.x.pun"}
          Logs_ = {"", "m.log", "a b/m.log", "m.x.log", "a b/x.log"}
          Places_ = {"m.pun", "m.orb", "m.log", "a b/m.orb", "a b/m.log", "a b/m.7", "m.x.log"}
INVARIANTS Taken ThePun TheLog TheOthers RunsIff Emit
CHECK_DEADLOCK FALSE

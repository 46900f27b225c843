SPECIFICATION Spec
CONSTANTS Dirs = {"", "d/", "d.log/", "./", "d.7/../"}
          Stems = {"", "a", "a.log", "a.pun", ".b", "log", "p q"}
          Exts = {".log", ".pun", ".7", ".orb", "", ".", ".LOG", ".logs", "log", ".lo"}
          MaxLen = 4
INVARIANTS OfType Every Told IsThere Emit
CHECK_DEADLOCK FALSE

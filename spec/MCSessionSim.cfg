SPECIFICATION Spec
CONSTANTS
  Files = {"f1", "f2", "nodir"}
  Writers = {"w1", "w2"}
  Readers = {"r1", "r2"}
  Lists = {"good", "good1", "bad1", "bad2", "nobuild", "void", "fit", "misfit", "fitbad", "twin", "fit2"}
  Fmts = {"A", "B"}
  Groups = {{"good", "twin", "bad2", "good1", "nobuild"}, {"fit", "fit2", "misfit", "fitbad"}}
  MaxOps = 14
  Record = TRUE
INVARIANTS DiskClean WriterHoldsItsObject Emit
CHECK_DEADLOCK FALSE

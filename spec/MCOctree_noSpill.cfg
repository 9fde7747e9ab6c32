SPECIFICATION Fair
CONSTANTS
  Roots <- MCRoots
  Lens = {1, 2, 3, 5}
  Workers = {0, 2, 3}
  MaxTri = 2
  Mutant = "noSpill"
VIEW View
INVARIANTS NeverTwice OnlyModel WithinBuffer EofMeansAll Conservation
PROPERTIES EofSticky Terminates
CHECK_DEADLOCK FALSE

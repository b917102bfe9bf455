SPECIFICATION Spec
CONSTANTS
  BLOCKS = 2
  TOKENS = 2
  KINDS = {"stored", "fixed", "rle", "one", "long"}
  LITS = {0, 255}
  LENS = {3, 258}
  DISTS = {1, 5}
  FAULTS = {"none", "pad", "trail", "level", "window", "adler", "adler2", "cut1", "cut4", "cut5", "fcheck", "method", "nofinal", "far", "type3", "sym286", "dist30", "nlen", "over", "rep0"}
  FAULTTOKENS = 1
  DELTAS <- DeltasQ
INVARIANTS Right Prefix Sums Emit
CHECK_DEADLOCK FALSE

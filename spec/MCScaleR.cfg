SPECIFICATION Spec
INVARIANT RawAgrees
CONSTANTS
  RUNS = 2
  NS = {0, 2}
  FNS = {1, 2}
  DELTAS <- DeltasQ
  FIRST = {"layer", "layerU", "group", "tilem", "two", "tags", "slice", "img0", "img1", "odd", "pair", "bad"}
  REST = {"img0", "one1", "link0", "link1", "slice", "bad"}
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANT ViewAgrees
CONSTANTS
  RUNS = 3
  NS = {2}
  FNS = {1}
  DELTAS <- DeltasQ
  FIRST = {"layer", "layerU", "group", "tilem", "two", "tags", "slice", "img0", "img1", "odd", "pair", "bad"}
  REST = {"img0", "one1", "link0", "link1", "slice", "bad"}
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS
  MaxChain = 3
  MaxDepth = 3
  MaxTotal = 6
  PathMax = 100
  Names = {"a", "b"}
  Targets <- SmallTargets
  PathComps = {"a", "b", "..", ""}
  MaxNodes = 4
  MaxPath = 4
  Aliases <- SmallAliases
INVARIANTS Agree NoFalseLoop Chained Plain FollowOnly FollowEnds NormIdem NormNeutral NormUndo
CHECK_DEADLOCK FALSE

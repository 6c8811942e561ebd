SPECIFICATION Spec
CONSTANTS Kinds = {"Any", "NonTransfer", "Assets", "AssetOwner", "Collator"}
          Ways = {"", "all", "deriv"}
          Proxies = 2
          Depth = 3
VIEW View
PROPERTY EdgesHold NoEscalation Guarded
INVARIANTS Ranked Apart
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

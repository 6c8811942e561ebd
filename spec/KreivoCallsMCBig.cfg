SPECIFICATION Spec
CONSTANTS Kinds = {"Any", "NonTransfer", "CancelProxy", "Assets", "AssetOwner", "AssetManager", "Collator"}
          Ways = {"", "batch", "all", "force", "deriv", "deep"}
          Proxies = 2
          Depth = 3
VIEW View
PROPERTY EdgesHold NoEscalation Guarded
INVARIANTS Ranked Apart
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

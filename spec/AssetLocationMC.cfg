CONSTANTS AssetsPallet = 13
          MaxJunctions = 3
          Emit = 2
SPECIFICATION Spec
INVARIANTS ThereAndBack BackAndThere
CHECK_DEADLOCK FALSE

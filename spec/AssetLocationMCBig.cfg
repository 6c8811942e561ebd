CONSTANTS AssetsPallet = 13
          MaxJunctions = 4
          Emit = 3
SPECIFICATION Spec
INVARIANTS ThereAndBack BackAndThere
CHECK_DEADLOCK FALSE

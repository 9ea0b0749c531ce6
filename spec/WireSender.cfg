CONSTANTS Types = {"Scalars","Repeats","Leaf","Outer","Mid","Maps","Numbers","Node","Nothing"}
          MaxOps = 1
          Feat = {"pad","unk","unpacked","mis"}
          Emit = TRUE
SPECIFICATION Spec
INVARIANTS Agree EmitCase
CHECK_DEADLOCK FALSE

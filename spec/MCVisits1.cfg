SPECIFICATION Spec
INVARIANTS Bounded Exact NeverMore NeverLess JustUsed Answers
PROPERTY Forgotten
CONSTANTS Cap = 6 Mod = 8 First = 3 Grain = 10 MaxS = 960 MaxUses = 6 Steps = {30, 60, 180, 420} Design = "right"
CHECK_DEADLOCK FALSE

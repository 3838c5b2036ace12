SPECIFICATION MSpec
CONSTANTS
 Aquifers <- AllAquifers
 Recharges = {0, 700, 5000}
 Abstractions = {0, 1100}
 Days = {1, 3, 7}
 Len_ = 3
INVARIANTS Bounded Conserved RoundTrip HigherGivesMore DryBelow Within Wishes
CHECK_DEADLOCK FALSE

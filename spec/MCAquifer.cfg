SPECIFICATION MSpec
CONSTANTS
 Aquifers <- FewAquifers
 Recharges = {0, 700, 5000}
 Abstractions = {0, 1100}
 Days = {1, 3}
 Len_ = 2
INVARIANTS Bounded Conserved RoundTrip HigherGivesMore DryBelow Within Wishes
CHECK_DEADLOCK FALSE

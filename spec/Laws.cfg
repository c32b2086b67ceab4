SPECIFICATION Spec
INVARIANTS Disjoint Invertible WindowRead PublishedSize MoreIsFine RankedAlike LatencyInjective
CHECK_DEADLOCK FALSE

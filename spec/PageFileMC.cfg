SPECIFICATION Spec
CONSTANTS
  Capacity = 3
  MaxPages = 6
  Contents = {"a", "b"}
INVARIANTS TypeOK Exclusive Partition Durable Bounded
PROPERTIES OthersUntouched NeverShrinks ReuseBeforeGrowth
CHECK_DEADLOCK FALSE

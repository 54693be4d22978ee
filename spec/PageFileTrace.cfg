SPECIFICATION TSpec
CONSTANT Capacity = 512
INVARIANTS TypeOK Exclusive Partition Durable Bounded
CHECK_DEADLOCK TRUE

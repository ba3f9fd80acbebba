CONSTANT MaxP = 3
INIT Init
NEXT Next
INVARIANTS PartitionOfUnity Positive Support SpanSupport DerivSums Agree Quotients EndPoints
CHECK_DEADLOCK FALSE

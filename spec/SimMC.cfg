CONSTANT Family = "sched"
SPECIFICATION Spec
INVARIANTS Cadence Held Simultaneity ObservedIsLogged LogContiguous LogWithinHorizon CommandsAtLoggedStates FirstFulfilment NeverObservedAfterLeaving NeverReportedAfterLeaving EndsExactly ReportsUnique FirstCollision ReportsOrdered CollidedCoast Emit
PROPERTY Terminates_
CHECK_DEADLOCK FALSE

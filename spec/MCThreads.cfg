SPECIFICATION MSpec
CONSTANTS Consumers = {c1, c2}
          Flaw = "none"
          NJobs = 2
          NTasks = 2
          TwoFindings = FALSE
INVARIANTS NothingLost SignIsTrue AtMostOnce
PROPERTIES EveryJobEnds Implements ImplementsAll
CHECK_DEADLOCK TRUE

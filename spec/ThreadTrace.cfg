SPECIFICATION TraceSpec
CONSTANTS Consumers = {"c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8"}
          Flaw = "none"
VIEW TraceView
CHECK_DEADLOCK FALSE

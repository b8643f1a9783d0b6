SPECIFICATION RunSpec
VIEW RunView
INVARIANTS SoundExit WholeReport
CHECK_DEADLOCK FALSE

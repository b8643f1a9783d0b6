SPECIFICATION ConfSpec
VIEW ConfView
CHECK_DEADLOCK FALSE

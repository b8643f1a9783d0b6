SPECIFICATION MetaSpec
VIEW ConfView
CHECK_DEADLOCK FALSE

INIT EInit
NEXT ENext
CHECK_DEADLOCK FALSE

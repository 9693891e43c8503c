SPECIFICATION Spec
PROPERTIES NoSwitchWhileValid PriorityOK
CHECK_DEADLOCK FALSE

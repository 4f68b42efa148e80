SPECIFICATION Spec
CONSTANT Slack = 1000
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
ACTION_CONSTRAINT Export
VIEW View
CHECK_DEADLOCK FALSE

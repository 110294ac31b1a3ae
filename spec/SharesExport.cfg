SPECIFICATION Spec
INVARIANT TypeOK
ACTION_CONSTRAINT Export
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
INVARIANT TypeOK
ACTION_CONSTRAINT Checked
VIEW View
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
VIEW View
PROPERTIES Mirrored Counted2 Levels
CHECK_DEADLOCK FALSE

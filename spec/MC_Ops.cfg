SPECIFICATION Spec
VIEW View
PROPERTIES Levels Spent Pending Forward Repositioned
CHECK_DEADLOCK FALSE

SPECIFICATION TextSpec
CONSTANT Regs = {1, 2, 3, 4, 5, 6, 7, 8}
CHECK_DEADLOCK TRUE

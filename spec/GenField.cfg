SPECIFICATION GenSpec
CONSTANTS
  Regs = {1, 2, 3, 4, 5, 6}
  Field = TRUE
  Depth = 20
  Ops = {"put", "add", "sub", "mul", "neg", "smul", "sdiv", "pow", "shl", "shr", "der", "setz", "trim", "clone", "div", "remas", "tadd", "tsub", "addp", "subp", "eval", "eq", "obs"}
INVARIANTS TypeOK Emit
CHECK_DEADLOCK FALSE

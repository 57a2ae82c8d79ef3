SPECIFICATION GenSpec
CONSTANT Pieces <- MCPieces
CHECK_DEADLOCK FALSE

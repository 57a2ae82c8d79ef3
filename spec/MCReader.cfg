SPECIFICATION Spec
INVARIANTS Total EndsInTime EndsForGood InsideTree WholeOnly LineByLine NothingInvented
CHECK_DEADLOCK FALSE

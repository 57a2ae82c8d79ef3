SPECIFICATION MCSpec
INVARIANTS InOrder Bounded Complete FailsIfUnread NothingHeldBack
PROPERTIES Terminates Refines
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS NothingLost EveryElementOnce Acknowledged NeverTwice NoCopyHeld AtMostOne

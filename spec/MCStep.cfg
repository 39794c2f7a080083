SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS RefusedHasNoEffect Frame ReadsDontWrite SetThenGet TypeIsAgree WellFormed RenameMoves
 DeleteRemoves TypeRespected CountExact AppendExtends KeysOnce Answered

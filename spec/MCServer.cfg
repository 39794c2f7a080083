SPECIFICATION SpecC
CONSTANTS Conns = {1, 2}
          Limit = 1
          Chunk = 3
INVARIANTS OneEach Faithful OnlyWhole Refused
PROPERTIES Answered
CHECK_DEADLOCK FALSE

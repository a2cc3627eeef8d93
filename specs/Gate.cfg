SPECIFICATION Spec
CONSTANTS Depth = 8
          Detail = FALSE
VIEW MCView
INVARIANT OnlyMembersServed
INVARIANT NothingRunsBeforeSigningIn
INVARIANT GoodMeansMember
PROPERTY OpenServesAll
CHECK_DEADLOCK FALSE

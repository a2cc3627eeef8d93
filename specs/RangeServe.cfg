SPECIFICATION Spec
CONSTANTS MaxSize = 6
          MaxPos = 8
          Depth = 1
VIEW MCView
INVARIANT WithinResource
INVARIANT LabelIsBody
INVARIANT NeverMoreThanAsked
INVARIANT RefusedHoldsNothing
INVARIANT Together
CHECK_DEADLOCK FALSE

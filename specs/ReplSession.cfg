SPECIFICATION Spec
CONSTANTS Depth = 5
          Ks = {1, 3}
VIEW MCView
PROPERTY Apart
PROPERTY ErrorsKeep
PROPERTY LinksStay
PROPERTY LinkIsValueThen
PROPERTY OnlyDefinedAnswered
CHECK_DEADLOCK FALSE

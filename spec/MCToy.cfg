SPECIFICATION Spec
CONSTANTS
  Taus = {1, 3, 8}
  KeySet = {0, 1, 98, 99, 100, 255}
  Chs = {0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 85, 127, 128, 129, 170, 192, 224, 240, 254, 255}
  Diffs = {1, 2, 4, 8, 16, 32, 64, 128, 255}
INVARIANTS Complete Refused Forced Usable
VIEW MCView
CHECK_DEADLOCK FALSE

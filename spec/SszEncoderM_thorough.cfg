INIT Init
NEXT Next
CONSTANTS
  Width = 3
  Depth = 1
  Pres = {0, 1, 7}
INVARIANTS AppendOnly ResultIsSpecified NestedIsStandalone FixedPortionIsStated Emitted

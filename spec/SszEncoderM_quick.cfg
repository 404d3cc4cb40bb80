INIT Init
NEXT Next
CONSTANTS
  Width = 2
  Depth = 1
  Pres = {0, 3}
INVARIANTS AppendOnly ResultIsSpecified NestedIsStandalone FixedPortionIsStated Emitted

SPECIFICATION Spec
CONSTANTS MaxIns = 2
          MaxPays = 3
          MaxDecoys = 1
          UseCatalogue = 0
INVARIANTS Agreement Soundness OrderFree RefuseIff LightClient
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS NDet = 3
          NGt = 2
          Sims = {0, 3, 5}
          Scores = {1, 2, 3}
          Th = 3
INVARIANTS InvOneToOne InvThreshold InvStable InvOperator InvUnique

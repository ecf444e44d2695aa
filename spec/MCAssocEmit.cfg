SPECIFICATION Spec
CONSTANTS NDet = 2
          NGt = 2
          Sims = {2, 4, 6}
          Scores = {1, 2, 3}
          Th = 4
INVARIANTS InvOneToOne InvThreshold InvStable InvOperator InvUnique Emit

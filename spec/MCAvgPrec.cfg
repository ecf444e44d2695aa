SPECIFICATION Spec
CONSTANTS MaxLen = 8
          MaxN = 7
INVARIANTS InvRange InvPerfect InvZero InvMonotoneCurve InvRankUp InvExtra
PROPERTY PropTail

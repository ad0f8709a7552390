SPECIFICATION TSpec
CONSTANTS Size = 31
          Start <- GStart
          Post <- GPost
          Why <- GWhy
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

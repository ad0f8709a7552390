SPECIFICATION TSpec
CONSTANTS Start <- GStart
          Post <- GPost
          Why <- GWhy
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE

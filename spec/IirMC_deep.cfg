SPECIFICATION MCSpec
CONSTANTS
    Coefs <- CoefsA
    Leads <- LeadsB
    Inputs <- InputsA
    MaxLen = 3
    Steps = 6
INVARIANTS Agree Exact
CHECK_DEADLOCK FALSE

SPECIFICATION MCSpec
CONSTANTS
    Coefs <- CoefsA
    Leads <- LeadsA
    Inputs <- InputsA
    MaxLen = 3
    Steps = 4
INVARIANTS Agree Exact
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS Scene = "replay" Off = {} MaxSess = 2 MaxGets = 3 MaxCreds = 1 MaxAcc = 3
INVARIANTS I_AuthAgreement I_AuthPolicy I_AuthAccount I_NoReplay I_Counters I_RegAgreement I_StoreSound I_HonestAccepted
CHECK_DEADLOCK FALSE

SPECIFICATION Spec
CONSTANTS MaxM = 24 Coefs <- MCCoefs Bases = {0, 1, 255, 32767, 32768, 65535}
  NS = 3 NV = 3 NM = 4
INVARIANT Ok
CHECK_DEADLOCK FALSE

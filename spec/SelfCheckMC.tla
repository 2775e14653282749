---- MODULE SelfCheckMC ----
EXTENDS SelfCheck
VARIABLE x
Init == x = 0
Next == UNCHANGED x
ASSUME AritOK
ASSUME UnaryOK
ASSUME MulOK
ASSUME DivOK
ASSUME IntOK
ASSUME GFOK
ASSUME AESOK
====

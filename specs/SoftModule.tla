----------------------------- MODULE SoftModule -----------------------------
(* The exported lists of the software module (property P27): which function   *)
(* each entry leads to, the versions, and the answers to queries for lists.   *)
(* The module offers one interface.  Every case is independent of the others; *)
(* histories are sequences of cases in any order.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Sizes    \* room the caller says it has

(* functions of version 2.40, in the standard's order *)
Old == <<
    "C_Initialize", "C_Finalize", "C_GetInfo", "C_GetFunctionList", "C_GetSlotList",
    "C_GetSlotInfo", "C_GetTokenInfo", "C_GetMechanismList", "C_GetMechanismInfo", "C_InitToken",
    "C_InitPIN", "C_SetPIN", "C_OpenSession", "C_CloseSession", "C_CloseAllSessions",
    "C_GetSessionInfo", "C_GetOperationState", "C_SetOperationState", "C_Login", "C_Logout",
    "C_CreateObject", "C_CopyObject", "C_DestroyObject", "C_GetObjectSize", "C_GetAttributeValue",
    "C_SetAttributeValue", "C_FindObjectsInit", "C_FindObjects", "C_FindObjectsFinal",
    "C_EncryptInit", "C_Encrypt", "C_EncryptUpdate", "C_EncryptFinal", "C_DecryptInit", "C_Decrypt",
    "C_DecryptUpdate", "C_DecryptFinal", "C_DigestInit", "C_Digest", "C_DigestUpdate",
    "C_DigestKey", "C_DigestFinal", "C_SignInit", "C_Sign", "C_SignUpdate", "C_SignFinal",
    "C_SignRecoverInit", "C_SignRecover", "C_VerifyInit", "C_Verify", "C_VerifyUpdate",
    "C_VerifyFinal", "C_VerifyRecoverInit", "C_VerifyRecover", "C_DigestEncryptUpdate",
    "C_DecryptDigestUpdate", "C_SignEncryptUpdate", "C_DecryptVerifyUpdate", "C_GenerateKey",
    "C_GenerateKeyPair", "C_WrapKey", "C_UnwrapKey", "C_DeriveKey", "C_SeedRandom",
    "C_GenerateRandom", "C_GetFunctionStatus", "C_CancelFunction", "C_WaitForSlotEvent">>
(* functions added by version 3.0 *)
Added == <<
    "C_GetInterfaceList", "C_GetInterface", "C_LoginUser", "C_SessionCancel",
    "C_MessageEncryptInit", "C_EncryptMessage", "C_EncryptMessageBegin", "C_EncryptMessageNext",
    "C_MessageEncryptFinal", "C_MessageDecryptInit", "C_DecryptMessage", "C_DecryptMessageBegin",
    "C_DecryptMessageNext", "C_MessageDecryptFinal", "C_MessageSignInit", "C_SignMessage",
    "C_SignMessageBegin", "C_SignMessageNext", "C_MessageSignFinal", "C_MessageVerifyInit",
    "C_VerifyMessage", "C_VerifyMessageBegin", "C_VerifyMessageNext", "C_MessageVerifyFinal">>
All == Old \o Added
Range(q) == {q[k] : k \in 1..Len(q)}

OK == 0
ArgumentsBad == 7
BufferTooSmall == 336
Interfaces == 1

(* a query for the interfaces: answer, count and number of entries written *)
Query(hasList, hasCount, size) ==
    IF ~hasCount THEN <<ArgumentsBad, 0, 0>>
    ELSE IF ~hasList THEN <<OK, Interfaces, 0>>
    ELSE IF size < Interfaces THEN <<BufferTooSmall, Interfaces, 0>>
    ELSE <<OK, Interfaces, Interfaces>>

Cases ==
    {[op |-> "entry", a |-> <<2, n>>, r |-> TRUE] : n \in Range(Old)}
    \cup {[op |-> "entry", a |-> <<3, n>>, r |-> TRUE] : n \in Range(All)}
    \cup {[op |-> "version", a |-> <<l>>, r |-> <<3, 0>>] : l \in {2, 3}}
    \cup {[op |-> "interfaces", a |-> <<x, y, z>>, r |-> Query(x, y, z)] : x \in BOOLEAN, y \in BOOLEAN, z \in Sizes}
    \cup {[op |-> "functions", a |-> <<x>>, r |-> IF x THEN OK ELSE ArgumentsBad] : x \in BOOLEAN}
    \cup {[op |-> "info", a |-> <<x>>, r |-> IF x THEN OK ELSE ArgumentsBad] : x \in BOOLEAN}
    \cup {[op |-> "interface", a |-> <<x>>, r |-> ArgumentsBad] : x \in BOOLEAN}

VARIABLE c
Init == c \in Cases /\ PrintT("@C" \o ToJson(c))
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
(* the standard has 68 and 92 functions, no name twice *)
Complete == Len(Old) = 68 /\ Len(All) = 92 /\ Cardinality(Range(All)) = 92
(* nothing is written without room for it *)
Bounded == c.op = "interfaces" => c.r[3] <= c.a[3] /\ (c.r[3] > 0 => c.r[1] = OK)
=============================================================================

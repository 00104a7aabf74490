----------------------------- MODULE Constants ------------------------------
(* The constants of the PKCS#11 standard, version 3.0 (property P32): which   *)
(* number each named value stands for, how flags combine, and that turning a  *)
(* number into a named value and back keeps every bit.  Numbers have 64 bits: *)
(* four parts of 16 bits, the most significant first; the types Version and   *)
(* Bool have 8 bits.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Bitwise
CONSTANTS Numbers     \* numbers that are turned into named values and back

Table == [
    Version |-> {
      <<"MAJOR", <<0, 0, 0, 3>>>>, <<"MINOR", <<0, 0, 0, 0>>>>, <<"AMENDMENT", <<0, 0, 0, 0>>>>},
    Bool |-> {
      <<"OASIS_TRUE", <<0, 0, 0, 1>>>>, <<"OASIS_FALSE", <<0, 0, 0, 0>>>>},
    SpecialValue |-> {
      <<"UNAVAILABLE_INFORMATION", <<65535, 65535, 65535, 65535>>>>, <<"EFFECTIVELY_INFINITE", <<0, 0, 0, 0>>>>,
      <<"INVALID_HANDLE", <<0, 0, 0, 0>>>>},
    Notification |-> {
      <<"SURRENDER", <<0, 0, 0, 0>>>>, <<"OTP_CHANGED", <<0, 0, 0, 1>>>>},
    SlotFlags |-> {
      <<"TOKEN_PRESENT", <<0, 0, 0, 1>>>>, <<"REMOVABLE_DEVICE", <<0, 0, 0, 2>>>>, <<"HW_SLOT", <<0, 0, 0, 4>>>>},
    TokenInfoFlags |-> {
      <<"RNG", <<0, 0, 0, 1>>>>, <<"WRITE_PROTECTED", <<0, 0, 0, 2>>>>, <<"LOGIN_REQUIRED", <<0, 0, 0, 4>>>>,
      <<"USER_PIN_INITIALIZED", <<0, 0, 0, 8>>>>, <<"RESTORE_KEY_NOT_NEEDED", <<0, 0, 0, 32>>>>,
      <<"CLOCK_ON_TOKEN", <<0, 0, 0, 64>>>>, <<"PROTECTED_AUTHENTICATION_PATH", <<0, 0, 0, 256>>>>,
      <<"DUAL_CRYPTO_OPERATIONS", <<0, 0, 0, 512>>>>, <<"TOKEN_INITIALIZED", <<0, 0, 0, 1024>>>>,
      <<"SECONDARY_AUTHENTICATION", <<0, 0, 0, 2048>>>>, <<"USER_PIN_COUNT_LOW", <<0, 0, 1, 0>>>>,
      <<"USER_PIN_FINAL_TRY", <<0, 0, 2, 0>>>>, <<"USER_PIN_LOCKED", <<0, 0, 4, 0>>>>,
      <<"USER_PIN_TO_BE_CHANGED", <<0, 0, 8, 0>>>>, <<"SO_PIN_COUNT_LOW", <<0, 0, 16, 0>>>>,
      <<"SO_PIN_FINAL_TRY", <<0, 0, 32, 0>>>>, <<"SO_PIN_LOCKED", <<0, 0, 64, 0>>>>,
      <<"SO_PIN_TO_BE_CHANGED", <<0, 0, 128, 0>>>>, <<"ERROR_STATE", <<0, 0, 256, 0>>>>},
    User |-> {
      <<"SECURITY_OFFICER", <<0, 0, 0, 0>>>>, <<"USER", <<0, 0, 0, 1>>>>, <<"CONTEXT_SPECIFIC", <<0, 0, 0, 2>>>>},
    State |-> {
      <<"RO_PUBLIC_SESSION", <<0, 0, 0, 0>>>>, <<"RO_USER_FUNCTIONS", <<0, 0, 0, 1>>>>,
      <<"RW_PUBLIC_SESSION", <<0, 0, 0, 2>>>>, <<"RW_USER_FUNCTIONS", <<0, 0, 0, 3>>>>,
      <<"RW_SO_FUNCTIONS", <<0, 0, 0, 4>>>>},
    SessionFlags |-> {
      <<"RW_SESSION", <<0, 0, 0, 2>>>>, <<"SERIAL_SESSION", <<0, 0, 0, 4>>>>},
    ObjectClass |-> {
      <<"DATA", <<0, 0, 0, 0>>>>, <<"CERTIFICATE", <<0, 0, 0, 1>>>>, <<"PUBLIC_KEY", <<0, 0, 0, 2>>>>,
      <<"PRIVATE_KEY", <<0, 0, 0, 3>>>>, <<"SECRET_KEY", <<0, 0, 0, 4>>>>, <<"HW_FEATURE", <<0, 0, 0, 5>>>>,
      <<"DOMAIN_PARAMETERS", <<0, 0, 0, 6>>>>, <<"MECHANISM", <<0, 0, 0, 7>>>>, <<"OTP_KEY", <<0, 0, 0, 8>>>>,
      <<"PROFILE", <<0, 0, 0, 9>>>>, <<"VENDOR_DEFINED", <<0, 0, 32768, 0>>>>},
    ProfileId |-> {
      <<"INVALID_ID", <<0, 0, 0, 0>>>>, <<"BASELINE_PROVIDER", <<0, 0, 0, 1>>>>,
      <<"EXTENDED_PROVIDER", <<0, 0, 0, 2>>>>, <<"AUTHENTICATION_TOKEN", <<0, 0, 0, 3>>>>,
      <<"PUBLIC_CERTIFICATES_TOKEN", <<0, 0, 0, 4>>>>, <<"VENDOR_DEFINED", <<0, 0, 32768, 0>>>>},
    HardwareFeature |-> {
      <<"MONOTONIC_COUNTER", <<0, 0, 0, 1>>>>, <<"CLOCK", <<0, 0, 0, 2>>>>, <<"USER_INTERFACE", <<0, 0, 0, 3>>>>,
      <<"VENDOR_DEFINED", <<0, 0, 32768, 0>>>>},
    Key |-> {
      <<"RSA", <<0, 0, 0, 0>>>>, <<"DSA", <<0, 0, 0, 1>>>>, <<"DH", <<0, 0, 0, 2>>>>, <<"EC", <<0, 0, 0, 3>>>>,
      <<"X9_42_DH", <<0, 0, 0, 4>>>>, <<"KEA", <<0, 0, 0, 5>>>>, <<"GENERIC_SECRET", <<0, 0, 0, 16>>>>,
      <<"RC2", <<0, 0, 0, 17>>>>, <<"RC4", <<0, 0, 0, 18>>>>, <<"DES", <<0, 0, 0, 19>>>>, <<"DES2", <<0, 0, 0, 20>>>>,
      <<"DES3", <<0, 0, 0, 21>>>>, <<"CAST", <<0, 0, 0, 22>>>>, <<"CAST3", <<0, 0, 0, 23>>>>,
      <<"CAST128", <<0, 0, 0, 24>>>>, <<"RC5", <<0, 0, 0, 25>>>>, <<"IDEA", <<0, 0, 0, 26>>>>,
      <<"SKIPJACK", <<0, 0, 0, 27>>>>, <<"BATON", <<0, 0, 0, 28>>>>, <<"JUNIPER", <<0, 0, 0, 29>>>>,
      <<"CDMF", <<0, 0, 0, 30>>>>, <<"AES", <<0, 0, 0, 31>>>>, <<"BLOWFISH", <<0, 0, 0, 32>>>>,
      <<"TWOFISH", <<0, 0, 0, 33>>>>, <<"SECURID", <<0, 0, 0, 34>>>>, <<"HOTP", <<0, 0, 0, 35>>>>,
      <<"ACTI", <<0, 0, 0, 36>>>>, <<"CAMELLIA", <<0, 0, 0, 37>>>>, <<"ARIA", <<0, 0, 0, 38>>>>,
      <<"MD5_HMAC", <<0, 0, 0, 39>>>>, <<"SHA_1_HMAC", <<0, 0, 0, 40>>>>, <<"RIPEMD128_HMAC", <<0, 0, 0, 41>>>>,
      <<"RIPEMD160_HMAC", <<0, 0, 0, 42>>>>, <<"SHA256_HMAC", <<0, 0, 0, 43>>>>, <<"SHA384_HMAC", <<0, 0, 0, 44>>>>,
      <<"SHA512_HMAC", <<0, 0, 0, 45>>>>, <<"SHA224_HMAC", <<0, 0, 0, 46>>>>, <<"SEED", <<0, 0, 0, 47>>>>,
      <<"GOSTR3410", <<0, 0, 0, 48>>>>, <<"GOSTR3411", <<0, 0, 0, 49>>>>, <<"GOST28147", <<0, 0, 0, 50>>>>,
      <<"CHACHA20", <<0, 0, 0, 51>>>>, <<"POLY1305", <<0, 0, 0, 52>>>>, <<"AES_XTS", <<0, 0, 0, 53>>>>,
      <<"SHA3_224_HMAC", <<0, 0, 0, 54>>>>, <<"SHA3_256_HMAC", <<0, 0, 0, 55>>>>,
      <<"SHA3_384_HMAC", <<0, 0, 0, 56>>>>, <<"SHA3_512_HMAC", <<0, 0, 0, 57>>>>,
      <<"BLAKE2B_160_HMAC", <<0, 0, 0, 58>>>>, <<"BLAKE2B_256_HMAC", <<0, 0, 0, 59>>>>,
      <<"BLAKE2B_384_HMAC", <<0, 0, 0, 60>>>>, <<"BLAKE2B_512_HMAC", <<0, 0, 0, 61>>>>,
      <<"SALSA20", <<0, 0, 0, 62>>>>, <<"X2RATCHET", <<0, 0, 0, 63>>>>, <<"EC_EDWARDS", <<0, 0, 0, 64>>>>,
      <<"EC_MONTGOMERY", <<0, 0, 0, 65>>>>, <<"HKDF", <<0, 0, 0, 66>>>>, <<"VENDOR_DEFINED", <<0, 0, 32768, 0>>>>},
    CertificateCategory |-> {
      <<"UNSPECIFIED", <<0, 0, 0, 0>>>>, <<"TOKEN_USER", <<0, 0, 0, 1>>>>, <<"AUTHORITY", <<0, 0, 0, 2>>>>,
      <<"OTHER_ENTITY", <<0, 0, 0, 3>>>>},
    SecurityDomain |-> {
      <<"UNSPECIFIED", <<0, 0, 0, 0>>>>, <<"MANUFACTURER", <<0, 0, 0, 1>>>>, <<"OPERATOR", <<0, 0, 0, 2>>>>,
      <<"THIRD_PARTY", <<0, 0, 0, 3>>>>},
    Certificate |-> {
      <<"X_509", <<0, 0, 0, 0>>>>, <<"X_509_ATTR_CERT", <<0, 0, 0, 1>>>>, <<"WTLS", <<0, 0, 0, 2>>>>,
      <<"VENDOR_DEFINED", <<0, 0, 32768, 0>>>>},
    AttributeFlags |-> {
      <<"ARRAY_ATTRIBUTE", <<0, 0, 16384, 0>>>>},
    OtpFormat |-> {
      <<"DECIMAL", <<0, 0, 0, 0>>>>, <<"HEXADECIMAL", <<0, 0, 0, 1>>>>, <<"ALPHANUMERIC", <<0, 0, 0, 2>>>>,
      <<"BINARY", <<0, 0, 0, 3>>>>},
    OtpParamAttributes |-> {
      <<"PARAM_IGNORED", <<0, 0, 0, 0>>>>, <<"PARAM_OPTIONAL", <<0, 0, 0, 1>>>>, <<"PARAM_MANDATORY", <<0, 0, 0, 2>>>>},
    Attribute |-> {
      <<"CLASS", <<0, 0, 0, 0>>>>, <<"TOKEN", <<0, 0, 0, 1>>>>, <<"PRIVATE", <<0, 0, 0, 2>>>>,
      <<"LABEL", <<0, 0, 0, 3>>>>, <<"UNIQUE_ID", <<0, 0, 0, 4>>>>, <<"APPLICATION", <<0, 0, 0, 16>>>>,
      <<"VALUE", <<0, 0, 0, 17>>>>, <<"OBJECT_ID", <<0, 0, 0, 18>>>>, <<"CERTIFICATE_TYPE", <<0, 0, 0, 128>>>>,
      <<"ISSUER", <<0, 0, 0, 129>>>>, <<"SERIAL_NUMBER", <<0, 0, 0, 130>>>>, <<"AC_ISSUER", <<0, 0, 0, 131>>>>,
      <<"OWNER", <<0, 0, 0, 132>>>>, <<"ATTR_TYPES", <<0, 0, 0, 133>>>>, <<"TRUSTED", <<0, 0, 0, 134>>>>,
      <<"CERTIFICATE_CATEGORY", <<0, 0, 0, 135>>>>, <<"JAVA_MIDP_SECURITY_DOMAIN", <<0, 0, 0, 136>>>>,
      <<"URL", <<0, 0, 0, 137>>>>, <<"HASH_OF_SUBJECT_PUBLIC_KEY", <<0, 0, 0, 138>>>>,
      <<"HASH_OF_ISSUER_PUBLIC_KEY", <<0, 0, 0, 139>>>>, <<"NAME_HASH_ALGORITHM", <<0, 0, 0, 140>>>>,
      <<"CHECK_VALUE", <<0, 0, 0, 144>>>>, <<"KEY_TYPE", <<0, 0, 0, 256>>>>, <<"SUBJECT", <<0, 0, 0, 257>>>>,
      <<"ID", <<0, 0, 0, 258>>>>, <<"SENSITIVE", <<0, 0, 0, 259>>>>, <<"ENCRYPT", <<0, 0, 0, 260>>>>,
      <<"DECRYPT", <<0, 0, 0, 261>>>>, <<"WRAP", <<0, 0, 0, 262>>>>, <<"UNWRAP", <<0, 0, 0, 263>>>>,
      <<"SIGN", <<0, 0, 0, 264>>>>, <<"SIGN_RECOVER", <<0, 0, 0, 265>>>>, <<"VERIFY", <<0, 0, 0, 266>>>>,
      <<"VERIFY_RECOVER", <<0, 0, 0, 267>>>>, <<"DERIVE", <<0, 0, 0, 268>>>>, <<"START_DATE", <<0, 0, 0, 272>>>>,
      <<"END_DATE", <<0, 0, 0, 273>>>>, <<"MODULUS", <<0, 0, 0, 288>>>>, <<"MODULUS_BITS", <<0, 0, 0, 289>>>>,
      <<"PUBLIC_EXPONENT", <<0, 0, 0, 290>>>>, <<"PRIVATE_EXPONENT", <<0, 0, 0, 291>>>>,
      <<"PRIME_1", <<0, 0, 0, 292>>>>, <<"PRIME_2", <<0, 0, 0, 293>>>>, <<"EXPONENT_1", <<0, 0, 0, 294>>>>,
      <<"EXPONENT_2", <<0, 0, 0, 295>>>>, <<"COEFFICIENT", <<0, 0, 0, 296>>>>,
      <<"PUBLIC_KEY_INFO", <<0, 0, 0, 297>>>>, <<"PRIME", <<0, 0, 0, 304>>>>, <<"SUBPRIME", <<0, 0, 0, 305>>>>,
      <<"BASE", <<0, 0, 0, 306>>>>, <<"PRIME_BITS", <<0, 0, 0, 307>>>>, <<"SUBPRIME_BITS", <<0, 0, 0, 308>>>>,
      <<"SUB_PRIME_BITS", <<0, 0, 0, 308>>>>, <<"VALUE_BITS", <<0, 0, 0, 352>>>>, <<"VALUE_LEN", <<0, 0, 0, 353>>>>,
      <<"EXTRACTABLE", <<0, 0, 0, 354>>>>, <<"LOCAL", <<0, 0, 0, 355>>>>, <<"NEVER_EXTRACTABLE", <<0, 0, 0, 356>>>>,
      <<"ALWAYS_SENSITIVE", <<0, 0, 0, 357>>>>, <<"KEY_GEN_MECHANISM", <<0, 0, 0, 358>>>>,
      <<"MODIFIABLE", <<0, 0, 0, 368>>>>, <<"COPYABLE", <<0, 0, 0, 369>>>>, <<"DESTROYABLE", <<0, 0, 0, 370>>>>,
      <<"EC_PARAMS", <<0, 0, 0, 384>>>>, <<"EC_POINT", <<0, 0, 0, 385>>>>,
      <<"ALWAYS_AUTHENTICATE", <<0, 0, 0, 514>>>>, <<"WRAP_WITH_TRUSTED", <<0, 0, 0, 528>>>>,
      <<"WRAP_TEMPLATE", <<0, 0, 16384, 529>>>>, <<"UNWRAP_TEMPLATE", <<0, 0, 16384, 530>>>>,
      <<"DERIVE_TEMPLATE", <<0, 0, 16384, 531>>>>, <<"OTP_FORMAT", <<0, 0, 0, 544>>>>,
      <<"OTP_LENGTH", <<0, 0, 0, 545>>>>, <<"OTP_TIME_INTERVAL", <<0, 0, 0, 546>>>>,
      <<"OTP_USER_FRIENDLY_MODE", <<0, 0, 0, 547>>>>, <<"OTP_CHALLENGE_REQUIREMENT", <<0, 0, 0, 548>>>>,
      <<"OTP_TIME_REQUIREMENT", <<0, 0, 0, 549>>>>, <<"OTP_COUNTER_REQUIREMENT", <<0, 0, 0, 550>>>>,
      <<"OTP_PIN_REQUIREMENT", <<0, 0, 0, 551>>>>, <<"OTP_COUNTER", <<0, 0, 0, 558>>>>,
      <<"OTP_TIME", <<0, 0, 0, 559>>>>, <<"OTP_USER_IDENTIFIER", <<0, 0, 0, 554>>>>,
      <<"OTP_SERVICE_IDENTIFIER", <<0, 0, 0, 555>>>>, <<"OTP_SERVICE_LOGO", <<0, 0, 0, 556>>>>,
      <<"OTP_SERVICE_LOGO_TYPE", <<0, 0, 0, 557>>>>, <<"GOSTR3410_PARAMS", <<0, 0, 0, 592>>>>,
      <<"GOSTR3411_PARAMS", <<0, 0, 0, 593>>>>, <<"GOST28147_PARAMS", <<0, 0, 0, 594>>>>,
      <<"HW_FEATURE_TYPE", <<0, 0, 0, 768>>>>, <<"RESET_ON_INIT", <<0, 0, 0, 769>>>>,
      <<"HAS_RESET", <<0, 0, 0, 770>>>>, <<"PIXEL_X", <<0, 0, 0, 1024>>>>, <<"PIXEL_Y", <<0, 0, 0, 1025>>>>,
      <<"RESOLUTION", <<0, 0, 0, 1026>>>>, <<"CHAR_ROWS", <<0, 0, 0, 1027>>>>, <<"CHAR_COLUMNS", <<0, 0, 0, 1028>>>>,
      <<"COLOR", <<0, 0, 0, 1029>>>>, <<"BITS_PER_PIXEL", <<0, 0, 0, 1030>>>>, <<"CHAR_SETS", <<0, 0, 0, 1152>>>>,
      <<"ENCODING_METHODS", <<0, 0, 0, 1153>>>>, <<"MIME_TYPES", <<0, 0, 0, 1154>>>>,
      <<"MECHANISM_TYPE", <<0, 0, 0, 1280>>>>, <<"REQUIRED_CMS_ATTRIBUTES", <<0, 0, 0, 1281>>>>,
      <<"DEFAULT_CMS_ATTRIBUTES", <<0, 0, 0, 1282>>>>, <<"SUPPORTED_CMS_ATTRIBUTES", <<0, 0, 0, 1283>>>>,
      <<"ALLOWED_MECHANISMS", <<0, 0, 16384, 1536>>>>, <<"PROFILE_ID", <<0, 0, 0, 1537>>>>,
      <<"VENDOR_DEFINED", <<0, 0, 32768, 0>>>>},
    Mechanism |-> {
      <<"RSA_PKCS_KEY_PAIR_GEN", <<0, 0, 0, 0>>>>, <<"RSA_PKCS", <<0, 0, 0, 1>>>>, <<"RSA_9796", <<0, 0, 0, 2>>>>,
      <<"RSA_X_509", <<0, 0, 0, 3>>>>, <<"MD2_RSA_PKCS", <<0, 0, 0, 4>>>>, <<"MD5_RSA_PKCS", <<0, 0, 0, 5>>>>,
      <<"SHA1_RSA_PKCS", <<0, 0, 0, 6>>>>, <<"RIPEMD128_RSA_PKCS", <<0, 0, 0, 7>>>>,
      <<"RIPEMD160_RSA_PKCS", <<0, 0, 0, 8>>>>, <<"RSA_PKCS_OAEP", <<0, 0, 0, 9>>>>,
      <<"RSA_X9_31_KEY_PAIR_GEN", <<0, 0, 0, 10>>>>, <<"RSA_X9_31", <<0, 0, 0, 11>>>>,
      <<"SHA1_RSA_X9_31", <<0, 0, 0, 12>>>>, <<"RSA_PKCS_PSS", <<0, 0, 0, 13>>>>,
      <<"SHA1_RSA_PKCS_PSS", <<0, 0, 0, 14>>>>, <<"DSA_KEY_PAIR_GEN", <<0, 0, 0, 16>>>>, <<"DSA", <<0, 0, 0, 17>>>>,
      <<"DSA_SHA1", <<0, 0, 0, 18>>>>, <<"DSA_SHA224", <<0, 0, 0, 19>>>>, <<"DSA_SHA256", <<0, 0, 0, 20>>>>,
      <<"DSA_SHA384", <<0, 0, 0, 21>>>>, <<"DSA_SHA512", <<0, 0, 0, 22>>>>, <<"DSA_SHA3_224", <<0, 0, 0, 24>>>>,
      <<"DSA_SHA3_256", <<0, 0, 0, 25>>>>, <<"DSA_SHA3_384", <<0, 0, 0, 26>>>>, <<"DSA_SHA3_512", <<0, 0, 0, 27>>>>,
      <<"DH_PKCS_KEY_PAIR_GEN", <<0, 0, 0, 32>>>>, <<"DH_PKCS_DERIVE", <<0, 0, 0, 33>>>>,
      <<"X9_42_DH_KEY_PAIR_GEN", <<0, 0, 0, 48>>>>, <<"X9_42_DH_DERIVE", <<0, 0, 0, 49>>>>,
      <<"X9_42_DH_HYBRID_DERIVE", <<0, 0, 0, 50>>>>, <<"X9_42_MQV_DERIVE", <<0, 0, 0, 51>>>>,
      <<"SHA256_RSA_PKCS", <<0, 0, 0, 64>>>>, <<"SHA384_RSA_PKCS", <<0, 0, 0, 65>>>>,
      <<"SHA512_RSA_PKCS", <<0, 0, 0, 66>>>>, <<"SHA256_RSA_PKCS_PSS", <<0, 0, 0, 67>>>>,
      <<"SHA384_RSA_PKCS_PSS", <<0, 0, 0, 68>>>>, <<"SHA512_RSA_PKCS_PSS", <<0, 0, 0, 69>>>>,
      <<"SHA224_RSA_PKCS", <<0, 0, 0, 70>>>>, <<"SHA224_RSA_PKCS_PSS", <<0, 0, 0, 71>>>>,
      <<"SHA512_224", <<0, 0, 0, 72>>>>, <<"SHA512_224_HMAC", <<0, 0, 0, 73>>>>,
      <<"SHA512_224_HMAC_GENERAL", <<0, 0, 0, 74>>>>, <<"SHA512_224_KEY_DERIVATION", <<0, 0, 0, 75>>>>,
      <<"SHA512_256", <<0, 0, 0, 76>>>>, <<"SHA512_256_HMAC", <<0, 0, 0, 77>>>>,
      <<"SHA512_256_HMAC_GENERAL", <<0, 0, 0, 78>>>>, <<"SHA512_256_KEY_DERIVATION", <<0, 0, 0, 79>>>>,
      <<"SHA512_T", <<0, 0, 0, 80>>>>, <<"SHA512_T_HMAC", <<0, 0, 0, 81>>>>,
      <<"SHA512_T_HMAC_GENERAL", <<0, 0, 0, 82>>>>, <<"SHA512_T_KEY_DERIVATION", <<0, 0, 0, 83>>>>,
      <<"SHA3_256_RSA_PKCS", <<0, 0, 0, 96>>>>, <<"SHA3_384_RSA_PKCS", <<0, 0, 0, 97>>>>,
      <<"SHA3_512_RSA_PKCS", <<0, 0, 0, 98>>>>, <<"SHA3_256_RSA_PKCS_PSS", <<0, 0, 0, 99>>>>,
      <<"SHA3_384_RSA_PKCS_PSS", <<0, 0, 0, 100>>>>, <<"SHA3_512_RSA_PKCS_PSS", <<0, 0, 0, 101>>>>,
      <<"SHA3_224_RSA_PKCS", <<0, 0, 0, 102>>>>, <<"SHA3_224_RSA_PKCS_PSS", <<0, 0, 0, 103>>>>,
      <<"RC2_KEY_GEN", <<0, 0, 0, 256>>>>, <<"RC2_ECB", <<0, 0, 0, 257>>>>, <<"RC2_CBC", <<0, 0, 0, 258>>>>,
      <<"RC2_MAC", <<0, 0, 0, 259>>>>, <<"RC2_MAC_GENERAL", <<0, 0, 0, 260>>>>, <<"RC2_CBC_PAD", <<0, 0, 0, 261>>>>,
      <<"RC4_KEY_GEN", <<0, 0, 0, 272>>>>, <<"RC4", <<0, 0, 0, 273>>>>, <<"DES_KEY_GEN", <<0, 0, 0, 288>>>>,
      <<"DES_ECB", <<0, 0, 0, 289>>>>, <<"DES_CBC", <<0, 0, 0, 290>>>>, <<"DES_MAC", <<0, 0, 0, 291>>>>,
      <<"DES_MAC_GENERAL", <<0, 0, 0, 292>>>>, <<"DES_CBC_PAD", <<0, 0, 0, 293>>>>,
      <<"DES2_KEY_GEN", <<0, 0, 0, 304>>>>, <<"DES3_KEY_GEN", <<0, 0, 0, 305>>>>, <<"DES3_ECB", <<0, 0, 0, 306>>>>,
      <<"DES3_CBC", <<0, 0, 0, 307>>>>, <<"DES3_MAC", <<0, 0, 0, 308>>>>, <<"DES3_MAC_GENERAL", <<0, 0, 0, 309>>>>,
      <<"DES3_CBC_PAD", <<0, 0, 0, 310>>>>, <<"DES3_CMAC_GENERAL", <<0, 0, 0, 311>>>>,
      <<"DES3_CMAC", <<0, 0, 0, 312>>>>, <<"CDMF_KEY_GEN", <<0, 0, 0, 320>>>>, <<"CDMF_ECB", <<0, 0, 0, 321>>>>,
      <<"CDMF_CBC", <<0, 0, 0, 322>>>>, <<"CDMF_MAC", <<0, 0, 0, 323>>>>, <<"CDMF_MAC_GENERAL", <<0, 0, 0, 324>>>>,
      <<"CDMF_CBC_PAD", <<0, 0, 0, 325>>>>, <<"DES_OFB64", <<0, 0, 0, 336>>>>, <<"DES_OFB8", <<0, 0, 0, 337>>>>,
      <<"DES_CFB64", <<0, 0, 0, 338>>>>, <<"DES_CFB8", <<0, 0, 0, 339>>>>, <<"MD2", <<0, 0, 0, 512>>>>,
      <<"MD2_HMAC", <<0, 0, 0, 513>>>>, <<"MD2_HMAC_GENERAL", <<0, 0, 0, 514>>>>, <<"MD5", <<0, 0, 0, 528>>>>,
      <<"MD5_HMAC", <<0, 0, 0, 529>>>>, <<"MD5_HMAC_GENERAL", <<0, 0, 0, 530>>>>, <<"SHA_1", <<0, 0, 0, 544>>>>,
      <<"SHA_1_HMAC", <<0, 0, 0, 545>>>>, <<"SHA_1_HMAC_GENERAL", <<0, 0, 0, 546>>>>,
      <<"RIPEMD128", <<0, 0, 0, 560>>>>, <<"RIPEMD128_HMAC", <<0, 0, 0, 561>>>>,
      <<"RIPEMD128_HMAC_GENERAL", <<0, 0, 0, 562>>>>, <<"RIPEMD160", <<0, 0, 0, 576>>>>,
      <<"RIPEMD160_HMAC", <<0, 0, 0, 577>>>>, <<"RIPEMD160_HMAC_GENERAL", <<0, 0, 0, 578>>>>,
      <<"SHA256", <<0, 0, 0, 592>>>>, <<"SHA256_HMAC", <<0, 0, 0, 593>>>>,
      <<"SHA256_HMAC_GENERAL", <<0, 0, 0, 594>>>>, <<"SHA224", <<0, 0, 0, 597>>>>,
      <<"SHA224_HMAC", <<0, 0, 0, 598>>>>, <<"SHA224_HMAC_GENERAL", <<0, 0, 0, 599>>>>,
      <<"SHA384", <<0, 0, 0, 608>>>>, <<"SHA384_HMAC", <<0, 0, 0, 609>>>>,
      <<"SHA384_HMAC_GENERAL", <<0, 0, 0, 610>>>>, <<"SHA512", <<0, 0, 0, 624>>>>,
      <<"SHA512_HMAC", <<0, 0, 0, 625>>>>, <<"SHA512_HMAC_GENERAL", <<0, 0, 0, 626>>>>,
      <<"SECURID_KEY_GEN", <<0, 0, 0, 640>>>>, <<"SECURID", <<0, 0, 0, 642>>>>, <<"HOTP_KEY_GEN", <<0, 0, 0, 656>>>>,
      <<"HOTP", <<0, 0, 0, 657>>>>, <<"ACTI", <<0, 0, 0, 672>>>>, <<"ACTI_KEY_GEN", <<0, 0, 0, 673>>>>,
      <<"SHA3_256", <<0, 0, 0, 688>>>>, <<"SHA3_256_HMAC", <<0, 0, 0, 689>>>>,
      <<"SHA3_256_HMAC_GENERAL", <<0, 0, 0, 690>>>>, <<"SHA3_256_KEY_GEN", <<0, 0, 0, 691>>>>,
      <<"SHA3_224", <<0, 0, 0, 693>>>>, <<"SHA3_224_HMAC", <<0, 0, 0, 694>>>>,
      <<"SHA3_224_HMAC_GENERAL", <<0, 0, 0, 695>>>>, <<"SHA3_224_KEY_GEN", <<0, 0, 0, 696>>>>,
      <<"SHA3_384", <<0, 0, 0, 704>>>>, <<"SHA3_384_HMAC", <<0, 0, 0, 705>>>>,
      <<"SHA3_384_HMAC_GENERAL", <<0, 0, 0, 706>>>>, <<"SHA3_384_KEY_GEN", <<0, 0, 0, 707>>>>,
      <<"SHA3_512", <<0, 0, 0, 720>>>>, <<"SHA3_512_HMAC", <<0, 0, 0, 721>>>>,
      <<"SHA3_512_HMAC_GENERAL", <<0, 0, 0, 722>>>>, <<"SHA3_512_KEY_GEN", <<0, 0, 0, 723>>>>,
      <<"CAST_KEY_GEN", <<0, 0, 0, 768>>>>, <<"CAST_ECB", <<0, 0, 0, 769>>>>, <<"CAST_CBC", <<0, 0, 0, 770>>>>,
      <<"CAST_MAC", <<0, 0, 0, 771>>>>, <<"CAST_MAC_GENERAL", <<0, 0, 0, 772>>>>,
      <<"CAST_CBC_PAD", <<0, 0, 0, 773>>>>, <<"CAST3_KEY_GEN", <<0, 0, 0, 784>>>>, <<"CAST3_ECB", <<0, 0, 0, 785>>>>,
      <<"CAST3_CBC", <<0, 0, 0, 786>>>>, <<"CAST3_MAC", <<0, 0, 0, 787>>>>, <<"CAST3_MAC_GENERAL", <<0, 0, 0, 788>>>>,
      <<"CAST3_CBC_PAD", <<0, 0, 0, 789>>>>, <<"CAST128_KEY_GEN", <<0, 0, 0, 800>>>>,
      <<"CAST128_ECB", <<0, 0, 0, 801>>>>, <<"CAST128_CBC", <<0, 0, 0, 802>>>>, <<"CAST128_MAC", <<0, 0, 0, 803>>>>,
      <<"CAST128_MAC_GENERAL", <<0, 0, 0, 804>>>>, <<"CAST128_CBC_PAD", <<0, 0, 0, 805>>>>,
      <<"RC5_KEY_GEN", <<0, 0, 0, 816>>>>, <<"RC5_ECB", <<0, 0, 0, 817>>>>, <<"RC5_CBC", <<0, 0, 0, 818>>>>,
      <<"RC5_MAC", <<0, 0, 0, 819>>>>, <<"RC5_MAC_GENERAL", <<0, 0, 0, 820>>>>, <<"RC5_CBC_PAD", <<0, 0, 0, 821>>>>,
      <<"IDEA_KEY_GEN", <<0, 0, 0, 832>>>>, <<"IDEA_ECB", <<0, 0, 0, 833>>>>, <<"IDEA_CBC", <<0, 0, 0, 834>>>>,
      <<"IDEA_MAC", <<0, 0, 0, 835>>>>, <<"IDEA_MAC_GENERAL", <<0, 0, 0, 836>>>>,
      <<"IDEA_CBC_PAD", <<0, 0, 0, 837>>>>, <<"GENERIC_SECRET_KEY_GEN", <<0, 0, 0, 848>>>>,
      <<"CONCATENATE_BASE_AND_KEY", <<0, 0, 0, 864>>>>, <<"CONCATENATE_BASE_AND_DATA", <<0, 0, 0, 866>>>>,
      <<"CONCATENATE_DATA_AND_BASE", <<0, 0, 0, 867>>>>, <<"XOR_BASE_AND_DATA", <<0, 0, 0, 868>>>>,
      <<"EXTRACT_KEY_FROM_KEY", <<0, 0, 0, 869>>>>, <<"SSL3_PRE_MASTER_KEY_GEN", <<0, 0, 0, 880>>>>,
      <<"SSL3_MASTER_KEY_DERIVE", <<0, 0, 0, 881>>>>, <<"SSL3_KEY_AND_MAC_DERIVE", <<0, 0, 0, 882>>>>,
      <<"SSL3_MASTER_KEY_DERIVE_DH", <<0, 0, 0, 883>>>>, <<"TLS_PRE_MASTER_KEY_GEN", <<0, 0, 0, 884>>>>,
      <<"TLS_MASTER_KEY_DERIVE", <<0, 0, 0, 885>>>>, <<"TLS_KEY_AND_MAC_DERIVE", <<0, 0, 0, 886>>>>,
      <<"TLS_MASTER_KEY_DERIVE_DH", <<0, 0, 0, 887>>>>, <<"TLS_PRF", <<0, 0, 0, 888>>>>,
      <<"SSL3_MD5_MAC", <<0, 0, 0, 896>>>>, <<"SSL3_SHA1_MAC", <<0, 0, 0, 897>>>>,
      <<"MD5_KEY_DERIVATION", <<0, 0, 0, 912>>>>, <<"MD2_KEY_DERIVATION", <<0, 0, 0, 913>>>>,
      <<"SHA1_KEY_DERIVATION", <<0, 0, 0, 914>>>>, <<"SHA256_KEY_DERIVATION", <<0, 0, 0, 915>>>>,
      <<"SHA384_KEY_DERIVATION", <<0, 0, 0, 916>>>>, <<"SHA512_KEY_DERIVATION", <<0, 0, 0, 917>>>>,
      <<"SHA224_KEY_DERIVATION", <<0, 0, 0, 918>>>>, <<"SHA3_256_KEY_DERIVE", <<0, 0, 0, 919>>>>,
      <<"SHA3_224_KEY_DERIVE", <<0, 0, 0, 920>>>>, <<"SHA3_384_KEY_DERIVE", <<0, 0, 0, 921>>>>,
      <<"SHA3_512_KEY_DERIVE", <<0, 0, 0, 922>>>>, <<"SHAKE_128_KEY_DERIVE", <<0, 0, 0, 923>>>>,
      <<"SHAKE_256_KEY_DERIVE", <<0, 0, 0, 924>>>>, <<"PBE_MD2_DES_CBC", <<0, 0, 0, 928>>>>,
      <<"PBE_MD5_DES_CBC", <<0, 0, 0, 929>>>>, <<"PBE_MD5_CAST_CBC", <<0, 0, 0, 930>>>>,
      <<"PBE_MD5_CAST3_CBC", <<0, 0, 0, 931>>>>, <<"PBE_MD5_CAST128_CBC", <<0, 0, 0, 932>>>>,
      <<"PBE_SHA1_CAST128_CBC", <<0, 0, 0, 933>>>>, <<"PBE_SHA1_RC4_128", <<0, 0, 0, 934>>>>,
      <<"PBE_SHA1_RC4_40", <<0, 0, 0, 935>>>>, <<"PBE_SHA1_DES3_EDE_CBC", <<0, 0, 0, 936>>>>,
      <<"PBE_SHA1_DES2_EDE_CBC", <<0, 0, 0, 937>>>>, <<"PBE_SHA1_RC2_128_CBC", <<0, 0, 0, 938>>>>,
      <<"PBE_SHA1_RC2_40_CBC", <<0, 0, 0, 939>>>>, <<"PKCS5_PBKD2", <<0, 0, 0, 944>>>>,
      <<"PBA_SHA1_WITH_SHA1_HMAC", <<0, 0, 0, 960>>>>, <<"WTLS_PRE_MASTER_KEY_GEN", <<0, 0, 0, 976>>>>,
      <<"WTLS_MASTER_KEY_DERIVE", <<0, 0, 0, 977>>>>, <<"WTLS_MASTER_KEY_DERIVE_DH_ECC", <<0, 0, 0, 978>>>>,
      <<"WTLS_PRF", <<0, 0, 0, 979>>>>, <<"WTLS_SERVER_KEY_AND_MAC_DERIVE", <<0, 0, 0, 980>>>>,
      <<"WTLS_CLIENT_KEY_AND_MAC_DERIVE", <<0, 0, 0, 981>>>>, <<"TLS10_MAC_SERVER", <<0, 0, 0, 982>>>>,
      <<"TLS10_MAC_CLIENT", <<0, 0, 0, 983>>>>, <<"TLS12_MAC", <<0, 0, 0, 984>>>>, <<"TLS12_KDF", <<0, 0, 0, 985>>>>,
      <<"TLS12_MASTER_KEY_DERIVE", <<0, 0, 0, 992>>>>, <<"TLS12_KEY_AND_MAC_DERIVE", <<0, 0, 0, 993>>>>,
      <<"TLS12_MASTER_KEY_DERIVE_DH", <<0, 0, 0, 994>>>>, <<"TLS12_KEY_SAFE_DERIVE", <<0, 0, 0, 995>>>>,
      <<"TLS_MAC", <<0, 0, 0, 996>>>>, <<"TLS_KDF", <<0, 0, 0, 997>>>>, <<"KEY_WRAP_LYNKS", <<0, 0, 0, 1024>>>>,
      <<"KEY_WRAP_SET_OAEP", <<0, 0, 0, 1025>>>>, <<"CMS_SIG", <<0, 0, 0, 1280>>>>,
      <<"KIP_DERIVE", <<0, 0, 0, 1296>>>>, <<"KIP_WRAP", <<0, 0, 0, 1297>>>>, <<"KIP_MAC", <<0, 0, 0, 1298>>>>,
      <<"CAMELLIA_KEY_GEN", <<0, 0, 0, 1360>>>>, <<"CAMELLIA_ECB", <<0, 0, 0, 1361>>>>,
      <<"CAMELLIA_CBC", <<0, 0, 0, 1362>>>>, <<"CAMELLIA_MAC", <<0, 0, 0, 1363>>>>,
      <<"CAMELLIA_MAC_GENERAL", <<0, 0, 0, 1364>>>>, <<"CAMELLIA_CBC_PAD", <<0, 0, 0, 1365>>>>,
      <<"CAMELLIA_ECB_ENCRYPT_DATA", <<0, 0, 0, 1366>>>>, <<"CAMELLIA_CBC_ENCRYPT_DATA", <<0, 0, 0, 1367>>>>,
      <<"CAMELLIA_CTR", <<0, 0, 0, 1368>>>>, <<"ARIA_KEY_GEN", <<0, 0, 0, 1376>>>>, <<"ARIA_ECB", <<0, 0, 0, 1377>>>>,
      <<"ARIA_CBC", <<0, 0, 0, 1378>>>>, <<"ARIA_MAC", <<0, 0, 0, 1379>>>>, <<"ARIA_MAC_GENERAL", <<0, 0, 0, 1380>>>>,
      <<"ARIA_CBC_PAD", <<0, 0, 0, 1381>>>>, <<"ARIA_ECB_ENCRYPT_DATA", <<0, 0, 0, 1382>>>>,
      <<"ARIA_CBC_ENCRYPT_DATA", <<0, 0, 0, 1383>>>>, <<"SEED_KEY_GEN", <<0, 0, 0, 1616>>>>,
      <<"SEED_ECB", <<0, 0, 0, 1617>>>>, <<"SEED_CBC", <<0, 0, 0, 1618>>>>, <<"SEED_MAC", <<0, 0, 0, 1619>>>>,
      <<"SEED_MAC_GENERAL", <<0, 0, 0, 1620>>>>, <<"SEED_CBC_PAD", <<0, 0, 0, 1621>>>>,
      <<"SEED_ECB_ENCRYPT_DATA", <<0, 0, 0, 1622>>>>, <<"SEED_CBC_ENCRYPT_DATA", <<0, 0, 0, 1623>>>>,
      <<"SKIPJACK_KEY_GEN", <<0, 0, 0, 4096>>>>, <<"SKIPJACK_ECB64", <<0, 0, 0, 4097>>>>,
      <<"SKIPJACK_CBC64", <<0, 0, 0, 4098>>>>, <<"SKIPJACK_OFB64", <<0, 0, 0, 4099>>>>,
      <<"SKIPJACK_CFB64", <<0, 0, 0, 4100>>>>, <<"SKIPJACK_CFB32", <<0, 0, 0, 4101>>>>,
      <<"SKIPJACK_CFB16", <<0, 0, 0, 4102>>>>, <<"SKIPJACK_CFB8", <<0, 0, 0, 4103>>>>,
      <<"SKIPJACK_WRAP", <<0, 0, 0, 4104>>>>, <<"SKIPJACK_PRIVATE_WRAP", <<0, 0, 0, 4105>>>>,
      <<"SKIPJACK_RELAYX", <<0, 0, 0, 4106>>>>, <<"KEA_KEY_PAIR_GEN", <<0, 0, 0, 4112>>>>,
      <<"KEA_KEY_DERIVE", <<0, 0, 0, 4113>>>>, <<"KEA_DERIVE", <<0, 0, 0, 4114>>>>,
      <<"FORTEZZA_TIMESTAMP", <<0, 0, 0, 4128>>>>, <<"BATON_KEY_GEN", <<0, 0, 0, 4144>>>>,
      <<"BATON_ECB128", <<0, 0, 0, 4145>>>>, <<"BATON_ECB96", <<0, 0, 0, 4146>>>>,
      <<"BATON_CBC128", <<0, 0, 0, 4147>>>>, <<"BATON_COUNTER", <<0, 0, 0, 4148>>>>,
      <<"BATON_SHUFFLE", <<0, 0, 0, 4149>>>>, <<"BATON_WRAP", <<0, 0, 0, 4150>>>>,
      <<"EC_KEY_PAIR_GEN", <<0, 0, 0, 4160>>>>, <<"ECDSA", <<0, 0, 0, 4161>>>>, <<"ECDSA_SHA1", <<0, 0, 0, 4162>>>>,
      <<"ECDSA_SHA224", <<0, 0, 0, 4163>>>>, <<"ECDSA_SHA256", <<0, 0, 0, 4164>>>>,
      <<"ECDSA_SHA384", <<0, 0, 0, 4165>>>>, <<"ECDSA_SHA512", <<0, 0, 0, 4166>>>>,
      <<"ECDH1_DERIVE", <<0, 0, 0, 4176>>>>, <<"ECDH1_COFACTOR_DERIVE", <<0, 0, 0, 4177>>>>,
      <<"ECMQV_DERIVE", <<0, 0, 0, 4178>>>>, <<"ECDH_AES_KEY_WRAP", <<0, 0, 0, 4179>>>>,
      <<"RSA_AES_KEY_WRAP", <<0, 0, 0, 4180>>>>, <<"JUNIPER_KEY_GEN", <<0, 0, 0, 4192>>>>,
      <<"JUNIPER_ECB128", <<0, 0, 0, 4193>>>>, <<"JUNIPER_CBC128", <<0, 0, 0, 4194>>>>,
      <<"JUNIPER_COUNTER", <<0, 0, 0, 4195>>>>, <<"JUNIPER_SHUFFLE", <<0, 0, 0, 4196>>>>,
      <<"JUNIPER_WRAP", <<0, 0, 0, 4197>>>>, <<"FASTHASH", <<0, 0, 0, 4208>>>>, <<"AES_XTS", <<0, 0, 0, 4209>>>>,
      <<"AES_XTS_KEY_GEN", <<0, 0, 0, 4210>>>>, <<"AES_KEY_GEN", <<0, 0, 0, 4224>>>>,
      <<"AES_ECB", <<0, 0, 0, 4225>>>>, <<"AES_CBC", <<0, 0, 0, 4226>>>>, <<"AES_MAC", <<0, 0, 0, 4227>>>>,
      <<"AES_MAC_GENERAL", <<0, 0, 0, 4228>>>>, <<"AES_CBC_PAD", <<0, 0, 0, 4229>>>>,
      <<"AES_CTR", <<0, 0, 0, 4230>>>>, <<"AES_GCM", <<0, 0, 0, 4231>>>>, <<"AES_CCM", <<0, 0, 0, 4232>>>>,
      <<"AES_CTS", <<0, 0, 0, 4233>>>>, <<"AES_CMAC", <<0, 0, 0, 4234>>>>, <<"AES_CMAC_GENERAL", <<0, 0, 0, 4235>>>>,
      <<"AES_XCBC_MAC", <<0, 0, 0, 4236>>>>, <<"AES_XCBC_MAC_96", <<0, 0, 0, 4237>>>>,
      <<"AES_GMAC", <<0, 0, 0, 4238>>>>, <<"BLOWFISH_KEY_GEN", <<0, 0, 0, 4240>>>>,
      <<"BLOWFISH_CBC", <<0, 0, 0, 4241>>>>, <<"TWOFISH_KEY_GEN", <<0, 0, 0, 4242>>>>,
      <<"TWOFISH_CBC", <<0, 0, 0, 4243>>>>, <<"BLOWFISH_CBC_PAD", <<0, 0, 0, 4244>>>>,
      <<"TWOFISH_CBC_PAD", <<0, 0, 0, 4245>>>>, <<"DES_ECB_ENCRYPT_DATA", <<0, 0, 0, 4352>>>>,
      <<"DES_CBC_ENCRYPT_DATA", <<0, 0, 0, 4353>>>>, <<"DES3_ECB_ENCRYPT_DATA", <<0, 0, 0, 4354>>>>,
      <<"DES3_CBC_ENCRYPT_DATA", <<0, 0, 0, 4355>>>>, <<"AES_ECB_ENCRYPT_DATA", <<0, 0, 0, 4356>>>>,
      <<"AES_CBC_ENCRYPT_DATA", <<0, 0, 0, 4357>>>>, <<"GOSTR3410_KEY_PAIR_GEN", <<0, 0, 0, 4608>>>>,
      <<"GOSTR3410", <<0, 0, 0, 4609>>>>, <<"GOSTR3410_WITH_GOSTR3411", <<0, 0, 0, 4610>>>>,
      <<"GOSTR3410_KEY_WRAP", <<0, 0, 0, 4611>>>>, <<"GOSTR3410_DERIVE", <<0, 0, 0, 4612>>>>,
      <<"GOSTR3411", <<0, 0, 0, 4624>>>>, <<"GOSTR3411_HMAC", <<0, 0, 0, 4625>>>>,
      <<"GOST28147_KEY_GEN", <<0, 0, 0, 4640>>>>, <<"GOST28147_ECB", <<0, 0, 0, 4641>>>>,
      <<"GOST28147", <<0, 0, 0, 4642>>>>, <<"GOST28147_MAC", <<0, 0, 0, 4643>>>>,
      <<"GOST28147_KEY_WRAP", <<0, 0, 0, 4644>>>>, <<"CHACHA20_KEY_GEN", <<0, 0, 0, 4645>>>>,
      <<"CHACHA20", <<0, 0, 0, 4646>>>>, <<"POLY1305_KEY_GEN", <<0, 0, 0, 4647>>>>, <<"POLY1305", <<0, 0, 0, 4648>>>>,
      <<"DSA_PARAMETER_GEN", <<0, 0, 0, 8192>>>>, <<"DH_PKCS_PARAMETER_GEN", <<0, 0, 0, 8193>>>>,
      <<"X9_42_DH_PARAMETER_GEN", <<0, 0, 0, 8194>>>>, <<"DSA_PROBABLISTIC_PARAMETER_GEN", <<0, 0, 0, 8195>>>>,
      <<"DSA_SHAWE_TAYLOR_PARAMETER_GEN", <<0, 0, 0, 8196>>>>, <<"AES_OFB", <<0, 0, 0, 8452>>>>,
      <<"AES_CFB64", <<0, 0, 0, 8453>>>>, <<"AES_CFB8", <<0, 0, 0, 8454>>>>, <<"AES_CFB128", <<0, 0, 0, 8455>>>>,
      <<"AES_CFB1", <<0, 0, 0, 8456>>>>, <<"AES_KEY_WRAP", <<0, 0, 0, 8457>>>>,
      <<"AES_KEY_WRAP_PAD", <<0, 0, 0, 8458>>>>, <<"AES_KEY_WRAP_KWP", <<0, 0, 0, 8459>>>>,
      <<"RSA_PKCS_TPM_1_1", <<0, 0, 0, 16385>>>>, <<"RSA_PKCS_OAEP_TPM_1_1", <<0, 0, 0, 16386>>>>,
      <<"SHA_1_KEY_GEN", <<0, 0, 0, 16387>>>>, <<"SHA224_KEY_GEN", <<0, 0, 0, 16388>>>>,
      <<"SHA256_KEY_GEN", <<0, 0, 0, 16389>>>>, <<"SHA384_KEY_GEN", <<0, 0, 0, 16390>>>>,
      <<"SHA512_KEY_GEN", <<0, 0, 0, 16391>>>>, <<"SHA512_224_KEY_GEN", <<0, 0, 0, 16392>>>>,
      <<"SHA512_256_KEY_GEN", <<0, 0, 0, 16393>>>>, <<"SHA512_T_KEY_GEN", <<0, 0, 0, 16394>>>>,
      <<"MECHANISM_NULL", <<0, 0, 0, 16395>>>>, <<"BLAKE2B_160", <<0, 0, 0, 16396>>>>,
      <<"BLAKE2B_160_HMAC", <<0, 0, 0, 16397>>>>, <<"BLAKE2B_160_HMAC_GENERAL", <<0, 0, 0, 16398>>>>,
      <<"BLAKE2B_160_KEY_DERIVE", <<0, 0, 0, 16399>>>>, <<"BLAKE2B_160_KEY_GEN", <<0, 0, 0, 16400>>>>,
      <<"BLAKE2B_256", <<0, 0, 0, 16401>>>>, <<"BLAKE2B_256_HMAC", <<0, 0, 0, 16402>>>>,
      <<"E2B_256_HMAC_GENERAL", <<0, 0, 0, 16403>>>>, <<"BLAKE2B_256_KEY_DERIVE", <<0, 0, 0, 16404>>>>,
      <<"BLAKE2B_256_KEY_GEN", <<0, 0, 0, 16405>>>>, <<"BLAKE2B_384", <<0, 0, 0, 16406>>>>,
      <<"BLAKE2B_384_HMAC", <<0, 0, 0, 16407>>>>, <<"BLAKE2B_384_HMAC_GENERAL", <<0, 0, 0, 16408>>>>,
      <<"BLAKE2B_384_KEY_DERIVE", <<0, 0, 0, 16409>>>>, <<"BLAKE2B_384_KEY_GEN", <<0, 0, 0, 16410>>>>,
      <<"BLAKE2B_512", <<0, 0, 0, 16411>>>>, <<"BLAKE2B_512_HMAC", <<0, 0, 0, 16412>>>>,
      <<"BLAKE2B_512_HMAC_GENERAL", <<0, 0, 0, 16413>>>>, <<"BLAKE2B_512_KEY_DERIVE", <<0, 0, 0, 16414>>>>,
      <<"BLAKE2B_512_KEY_GEN", <<0, 0, 0, 16415>>>>, <<"SALSA20", <<0, 0, 0, 16416>>>>,
      <<"CHACHA20_POLY1305", <<0, 0, 0, 16417>>>>, <<"SALSA20_POLY1305", <<0, 0, 0, 16418>>>>,
      <<"X3DH_INITIALIZE", <<0, 0, 0, 16419>>>>, <<"X3DH_RESPOND", <<0, 0, 0, 16420>>>>,
      <<"X2RATCHET_INITIALIZE", <<0, 0, 0, 16421>>>>, <<"X2RATCHET_RESPOND", <<0, 0, 0, 16422>>>>,
      <<"X2RATCHET_ENCRYPT", <<0, 0, 0, 16423>>>>, <<"X2RATCHET_DECRYPT", <<0, 0, 0, 16424>>>>,
      <<"XEDDSA", <<0, 0, 0, 16425>>>>, <<"HKDF_DERIVE", <<0, 0, 0, 16426>>>>, <<"HKDF_DATA", <<0, 0, 0, 16427>>>>,
      <<"HKDF_KEY_GEN", <<0, 0, 0, 16428>>>>, <<"ECDSA_SHA3_224", <<0, 0, 0, 4167>>>>,
      <<"ECDSA_SHA3_256", <<0, 0, 0, 4168>>>>, <<"ECDSA_SHA3_384", <<0, 0, 0, 4169>>>>,
      <<"ECDSA_SHA3_512", <<0, 0, 0, 4170>>>>, <<"EC_EDWARDS_KEY_PAIR_GEN", <<0, 0, 0, 4181>>>>,
      <<"EC_MONTGOMERY_KEY_PAIR_GEN", <<0, 0, 0, 4182>>>>, <<"EDDSA", <<0, 0, 0, 4183>>>>,
      <<"SP800_108_COUNTER_KDF", <<0, 0, 0, 940>>>>, <<"SP800_108_FEEDBACK_KDF", <<0, 0, 0, 941>>>>,
      <<"SP800_108_DOUBLE_PIPELINE_KDF", <<0, 0, 0, 942>>>>, <<"VENDOR_DEFINED", <<0, 0, 32768, 0>>>>},
    MechanismFlags |-> {
      <<"HW", <<0, 0, 0, 1>>>>, <<"MESSAGE_ENCRYPT", <<0, 0, 0, 2>>>>, <<"MESSAGE_DECRYPT", <<0, 0, 0, 4>>>>,
      <<"MESSAGE_SIGN", <<0, 0, 0, 8>>>>, <<"MESSAGE_VERIFY", <<0, 0, 0, 16>>>>, <<"MULTI_MESSGE", <<0, 0, 0, 32>>>>,
      <<"FIND_OBJECTS", <<0, 0, 0, 64>>>>, <<"ENCRYPT", <<0, 0, 0, 256>>>>, <<"DECRYPT", <<0, 0, 0, 512>>>>,
      <<"DIGEST", <<0, 0, 0, 1024>>>>, <<"SIGN", <<0, 0, 0, 2048>>>>, <<"SIGN_RECOVER", <<0, 0, 0, 4096>>>>,
      <<"VERIFY", <<0, 0, 0, 8192>>>>, <<"VERIFY_RECOVER", <<0, 0, 0, 16384>>>>, <<"GENERATE", <<0, 0, 0, 32768>>>>,
      <<"GENERATE_KEY_PAIR", <<0, 0, 1, 0>>>>, <<"WRAP", <<0, 0, 2, 0>>>>, <<"UNWRAP", <<0, 0, 4, 0>>>>,
      <<"DERIVE", <<0, 0, 8, 0>>>>, <<"EC_F_P", <<0, 0, 16, 0>>>>, <<"EC_F_2M", <<0, 0, 32, 0>>>>,
      <<"EC_ECPARAMETERS", <<0, 0, 64, 0>>>>, <<"EC_OID", <<0, 0, 128, 0>>>>, <<"EC_UNCOMPRESS", <<0, 0, 256, 0>>>>,
      <<"EC_COMPRESS", <<0, 0, 512, 0>>>>, <<"EC_CURVENAME", <<0, 0, 1024, 0>>>>, <<"EXTENSION", <<0, 0, 32768, 0>>>>},
    ReturnType |-> {
      <<"OK", <<0, 0, 0, 0>>>>, <<"CANCEL", <<0, 0, 0, 1>>>>, <<"HOST_MEMORY", <<0, 0, 0, 2>>>>,
      <<"SLOT_ID_INVALID", <<0, 0, 0, 3>>>>, <<"GENERAL_ERROR", <<0, 0, 0, 5>>>>,
      <<"FUNCTION_FAILED", <<0, 0, 0, 6>>>>, <<"ARGUMENTS_BAD", <<0, 0, 0, 7>>>>, <<"NO_EVENT", <<0, 0, 0, 8>>>>,
      <<"NEED_TO_CREATE_THREADS", <<0, 0, 0, 9>>>>, <<"CANT_LOCK", <<0, 0, 0, 10>>>>,
      <<"ATTRIBUTE_READ_ONLY", <<0, 0, 0, 16>>>>, <<"ATTRIBUTE_SENSITIVE", <<0, 0, 0, 17>>>>,
      <<"ATTRIBUTE_TYPE_INVALID", <<0, 0, 0, 18>>>>, <<"ATTRIBUTE_VALUE_INVALID", <<0, 0, 0, 19>>>>,
      <<"ACTION_PROHIBITED", <<0, 0, 0, 27>>>>, <<"DATA_INVALID", <<0, 0, 0, 32>>>>,
      <<"DATA_LEN_RANGE", <<0, 0, 0, 33>>>>, <<"DEVICE_ERROR", <<0, 0, 0, 48>>>>,
      <<"DEVICE_MEMORY", <<0, 0, 0, 49>>>>, <<"DEVICE_REMOVED", <<0, 0, 0, 50>>>>,
      <<"ENCRYPTED_DATA_INVALID", <<0, 0, 0, 64>>>>, <<"ENCRYPTED_DATA_LEN_RANGE", <<0, 0, 0, 65>>>>,
      <<"AEAD_DECRYPT_FAILED", <<0, 0, 0, 66>>>>, <<"FUNCTION_CANCELED", <<0, 0, 0, 80>>>>,
      <<"FUNCTION_NOT_PARALLEL", <<0, 0, 0, 81>>>>, <<"FUNCTION_NOT_SUPPORTED", <<0, 0, 0, 84>>>>,
      <<"KEY_HANDLE_INVALID", <<0, 0, 0, 96>>>>, <<"KEY_SIZE_RANGE", <<0, 0, 0, 98>>>>,
      <<"KEY_TYPE_INCONSISTENT", <<0, 0, 0, 99>>>>, <<"KEY_NOT_NEEDED", <<0, 0, 0, 100>>>>,
      <<"KEY_CHANGED", <<0, 0, 0, 101>>>>, <<"KEY_NEEDED", <<0, 0, 0, 102>>>>,
      <<"KEY_INDIGESTIBLE", <<0, 0, 0, 103>>>>, <<"KEY_FUNCTION_NOT_PERMITTED", <<0, 0, 0, 104>>>>,
      <<"KEY_NOT_WRAPPABLE", <<0, 0, 0, 105>>>>, <<"KEY_UNEXTRACTABLE", <<0, 0, 0, 106>>>>,
      <<"MECHANISM_INVALID", <<0, 0, 0, 112>>>>, <<"MECHANISM_PARAM_INVALID", <<0, 0, 0, 113>>>>,
      <<"OBJECT_HANDLE_INVALID", <<0, 0, 0, 130>>>>, <<"OPERATION_ACTIVE", <<0, 0, 0, 144>>>>,
      <<"OPERATION_NOT_INITIALIZED", <<0, 0, 0, 145>>>>, <<"PIN_INCORRECT", <<0, 0, 0, 160>>>>,
      <<"PIN_INVALID", <<0, 0, 0, 161>>>>, <<"PIN_LEN_RANGE", <<0, 0, 0, 162>>>>, <<"PIN_EXPIRED", <<0, 0, 0, 163>>>>,
      <<"PIN_LOCKED", <<0, 0, 0, 164>>>>, <<"SESSION_CLOSED", <<0, 0, 0, 176>>>>,
      <<"SESSION_COUNT", <<0, 0, 0, 177>>>>, <<"SESSION_HANDLE_INVALID", <<0, 0, 0, 179>>>>,
      <<"SESSION_PARALLEL_NOT_SUPPORTED", <<0, 0, 0, 180>>>>, <<"SESSION_READ_ONLY", <<0, 0, 0, 181>>>>,
      <<"SESSION_EXISTS", <<0, 0, 0, 182>>>>, <<"SESSION_READ_ONLY_EXISTS", <<0, 0, 0, 183>>>>,
      <<"SESSION_READ_WRITE_SO_EXISTS", <<0, 0, 0, 184>>>>, <<"SIGNATURE_INVALID", <<0, 0, 0, 192>>>>,
      <<"SIGNATURE_LEN_RANGE", <<0, 0, 0, 193>>>>, <<"TEMPLATE_INCOMPLETE", <<0, 0, 0, 208>>>>,
      <<"TEMPLATE_INCONSISTENT", <<0, 0, 0, 209>>>>, <<"TOKEN_NOT_PRESENT", <<0, 0, 0, 224>>>>,
      <<"TOKEN_NOT_RECOGNIZED", <<0, 0, 0, 225>>>>, <<"TOKEN_WRITE_PROTECTED", <<0, 0, 0, 226>>>>,
      <<"UNWRAPPING_KEY_HANDLE_INVALID", <<0, 0, 0, 240>>>>, <<"UNWRAPPING_KEY_SIZE_RANGE", <<0, 0, 0, 241>>>>,
      <<"UNWRAPPING_KEY_TYPE_INCONSISTENT", <<0, 0, 0, 242>>>>, <<"USER_ALREADY_LOGGED_IN", <<0, 0, 0, 256>>>>,
      <<"USER_NOT_LOGGED_IN", <<0, 0, 0, 257>>>>, <<"USER_PIN_NOT_INITIALIZED", <<0, 0, 0, 258>>>>,
      <<"USER_TYPE_INVALID", <<0, 0, 0, 259>>>>, <<"USER_ANOTHER_ALREADY_LOGGED_IN", <<0, 0, 0, 260>>>>,
      <<"USER_TOO_MANY_TYPES", <<0, 0, 0, 261>>>>, <<"WRAPPED_KEY_INVALID", <<0, 0, 0, 272>>>>,
      <<"WRAPPED_KEY_LEN_RANGE", <<0, 0, 0, 274>>>>, <<"WRAPPING_KEY_HANDLE_INVALID", <<0, 0, 0, 275>>>>,
      <<"WRAPPING_KEY_SIZE_RANGE", <<0, 0, 0, 276>>>>, <<"WRAPPING_KEY_TYPE_INCONSISTENT", <<0, 0, 0, 277>>>>,
      <<"RANDOM_SEED_NOT_SUPPORTED", <<0, 0, 0, 288>>>>, <<"RANDOM_NO_RNG", <<0, 0, 0, 289>>>>,
      <<"DOMAIN_PARAMS_INVALID", <<0, 0, 0, 304>>>>, <<"CURVE_NOT_SUPPORTED", <<0, 0, 0, 320>>>>,
      <<"BUFFER_TOO_SMALL", <<0, 0, 0, 336>>>>, <<"SAVED_STATE_INVALID", <<0, 0, 0, 352>>>>,
      <<"INFORMATION_SENSITIVE", <<0, 0, 0, 368>>>>, <<"STATE_UNSAVEABLE", <<0, 0, 0, 384>>>>,
      <<"CRYPTOKI_NOT_INITIALIZED", <<0, 0, 0, 400>>>>, <<"CRYPTOKI_ALREADY_INITIALIZED", <<0, 0, 0, 401>>>>,
      <<"MUTEX_BAD", <<0, 0, 0, 416>>>>, <<"MUTEX_NOT_LOCKED", <<0, 0, 0, 417>>>>,
      <<"NEW_PIN_MODE", <<0, 0, 0, 432>>>>, <<"NEXT_OTP", <<0, 0, 0, 433>>>>,
      <<"EXCEEDED_MAX_ITERATIONS", <<0, 0, 0, 437>>>>, <<"FIPS_SELF_TEST_FAILED", <<0, 0, 0, 438>>>>,
      <<"LIBRARY_LOAD_FAILED", <<0, 0, 0, 439>>>>, <<"PIN_TOO_WEAK", <<0, 0, 0, 440>>>>,
      <<"PUBLIC_KEY_INVALID", <<0, 0, 0, 441>>>>, <<"FUNCTION_REJECTED", <<0, 0, 0, 512>>>>,
      <<"TOKEN_RESOURCE_EXCEEDED", <<0, 0, 0, 513>>>>, <<"VENDOR_DEFINED", <<0, 0, 32768, 0>>>>},
    InterfaceFlags |-> {
      <<"NONE", <<0, 0, 0, 0>>>>, <<"END_OF_MESSAGE", <<0, 0, 0, 1>>>>},
    FunctionListFlags |-> {
      <<"NULL_VALUE", <<0, 0, 0, 0>>>>, <<"FORK_SAFE", <<0, 0, 0, 1>>>>},
    InitializeArgsFlags |-> {
      <<"LIBRARY_CANT_CREATE_OS_THREADS", <<0, 0, 0, 1>>>>, <<"OS_LOCKING_OK", <<0, 0, 0, 2>>>>},
    WaitForSlotEventFlags |-> {
      <<"DO_BLOCK", <<0, 0, 0, 0>>>>, <<"DONT_BLOCK", <<0, 0, 0, 1>>>>},
    RsaMessageGenerationFunction |-> {
      <<"SHA1", <<0, 0, 0, 1>>>>, <<"SHA256", <<0, 0, 0, 2>>>>, <<"SHA384", <<0, 0, 0, 3>>>>,
      <<"SHA512", <<0, 0, 0, 4>>>>, <<"SHA224", <<0, 0, 0, 5>>>>},
    RsaPkcsOaepSource |-> {
      <<"DATA_SPECIFIED", <<0, 0, 0, 1>>>>},
    EcKdf |-> {
      <<"NONE", <<0, 0, 0, 1>>>>, <<"SHA1", <<0, 0, 0, 2>>>>, <<"SHA1_ASN1", <<0, 0, 0, 3>>>>,
      <<"SHA1_CONCATENATE", <<0, 0, 0, 4>>>>, <<"SHA224", <<0, 0, 0, 5>>>>, <<"SHA256", <<0, 0, 0, 6>>>>,
      <<"SHA384", <<0, 0, 0, 7>>>>, <<"SHA512", <<0, 0, 0, 8>>>>, <<"CPDIVERSIFY", <<0, 0, 0, 9>>>>,
      <<"SHA3_224_KDF", <<0, 0, 0, 10>>>>, <<"SHA3_256_KDF", <<0, 0, 0, 11>>>>, <<"SHA3_384_KDF", <<0, 0, 0, 12>>>>,
      <<"SHA3_512_KDF", <<0, 0, 0, 13>>>>, <<"SHA1_KDF_SP800", <<0, 0, 0, 14>>>>,
      <<"SHA224_KDF_SP800", <<0, 0, 0, 15>>>>, <<"SHA256_KDF_SP800", <<0, 0, 0, 16>>>>,
      <<"SHA384_KDF_SP800", <<0, 0, 0, 17>>>>, <<"SHA512_KDF_SP800", <<0, 0, 0, 18>>>>,
      <<"SHA3_224_KDF_SP800", <<0, 0, 0, 19>>>>, <<"SHA3_256_KDF_SP800", <<0, 0, 0, 20>>>>,
      <<"SHA3_384_KDF_SP800", <<0, 0, 0, 21>>>>, <<"SHA3_512_KDF_SP800", <<0, 0, 0, 22>>>>,
      <<"BLAKE2B_160_KDF", <<0, 0, 0, 23>>>>, <<"BLAKE2B_256_KDF", <<0, 0, 0, 24>>>>,
      <<"BLAKE2B_384_KDF", <<0, 0, 0, 25>>>>, <<"BLAKE2B_512_KDF", <<0, 0, 0, 26>>>>},
    Pkcs5Pbkd2PseudoRandomFunction |-> {
      <<"SHA1", <<0, 0, 0, 1>>>>, <<"GOSTR3411", <<0, 0, 0, 2>>>>, <<"SHA224", <<0, 0, 0, 3>>>>,
      <<"SHA256", <<0, 0, 0, 4>>>>, <<"SHA384", <<0, 0, 0, 5>>>>, <<"SHA512", <<0, 0, 0, 6>>>>,
      <<"SHA512_224", <<0, 0, 0, 7>>>>, <<"SHA512_256", <<0, 0, 0, 8>>>>},
    Pkcs5Pbkdf2SaltSource |-> {
      <<"SPECIFIED", <<0, 0, 0, 1>>>>},
    OtpParam |-> {
      <<"VALUE", <<0, 0, 0, 0>>>>, <<"PIN", <<0, 0, 0, 1>>>>, <<"CHALLENGE", <<0, 0, 0, 2>>>>,
      <<"TIME", <<0, 0, 0, 3>>>>, <<"COUNTER", <<0, 0, 0, 4>>>>, <<"FLAGS", <<0, 0, 0, 5>>>>,
      <<"OUTPUT_LENGTH", <<0, 0, 0, 6>>>>, <<"OUTPUT_FORMAT", <<0, 0, 0, 7>>>>},
    OtpParamFlags |-> {
      <<"NEXT_OTP", <<0, 0, 0, 1>>>>, <<"EXCLUDE_TIME", <<0, 0, 0, 2>>>>, <<"EXCLUDE_COUNTER", <<0, 0, 0, 4>>>>,
      <<"EXCLUDE_CHALLENGE", <<0, 0, 0, 8>>>>, <<"EXCLUDE_PIN", <<0, 0, 0, 16>>>>,
      <<"USER_FRIENDLY_OTP", <<0, 0, 0, 32>>>>},
    GeneratorFunction |-> {
      <<"NO_GENERATE", <<0, 0, 0, 0>>>>, <<"GENERATE", <<0, 0, 0, 1>>>>, <<"GENERATE_COUNTER", <<0, 0, 0, 2>>>>,
      <<"GENERATE_RANDOM", <<0, 0, 0, 3>>>>},
    NistSp800dot108 |-> {
      <<"ITERATION_VARIABLE", <<0, 0, 0, 1>>>>, <<"OPTIONAL_COUNTER", <<0, 0, 0, 2>>>>,
      <<"DKM_LENGTH", <<0, 0, 0, 3>>>>, <<"BYTE_ARRAY", <<0, 0, 0, 4>>>>},
    HkdfSalt |-> {
      <<"SALT_NULL", <<0, 0, 0, 1>>>>, <<"SALT_DATA", <<0, 0, 0, 2>>>>, <<"SALT_KEY", <<0, 0, 0, 4>>>>}
]
Flags == {"SlotFlags", "TokenInfoFlags", "SessionFlags", "AttributeFlags", "MechanismFlags", "InterfaceFlags",
          "FunctionListFlags", "InitializeArgsFlags", "WaitForSlotEventFlags", "OtpParamFlags"}
Narrow == {"Version", "Bool"}

Joined(x, y) == [k \in 1..4 |-> x[k] | y[k]]
Common(x, y) == [k \in 1..4 |-> x[k] & y[k]]
Kept(e, x) == IF e \in Narrow THEN <<0, 0, 0, x[4] % 256>> ELSE x

Cases ==
    UNION {{[op |-> "value", a |-> <<e, x[1]>>, r |-> x[2]] : x \in Table[e]} : e \in DOMAIN Table}
    \cup UNION {{[op |-> "or", a |-> <<e, x[1], y[1]>>, r |-> Joined(x[2], y[2])] : x \in Table[e], y \in Table[e]} : e \in Flags}
    \cup UNION {{[op |-> "and", a |-> <<e, x[1], y[1]>>, r |-> Common(x[2], y[2])] : x \in Table[e], y \in Table[e]} : e \in Flags}
    \cup {[op |-> "convert", a |-> <<e, x>>, r |-> Kept(e, x)] : e \in DOMAIN Table, x \in Numbers}

VARIABLE c
Init == c \in Cases /\ PrintT("@C" \o ToJson(c))
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

(* a name means one number; two names of one number exist only where the standard has them *)
Aliases == {<<"Version", 1>>, <<"SpecialValue", 1>>, <<"Attribute", 1>>}
Distinct == \A e \in DOMAIN Table :
    /\ Cardinality({x[1] : x \in Table[e]}) = Cardinality(Table[e])
    /\ Cardinality({x[2] : x \in Table[e]}) + (IF <<e, 1>> \in Aliases THEN 1 ELSE 0) = Cardinality(Table[e])
ASSUME Distinct
(* combining flags neither loses nor invents one *)
Lawful == c.op \in {"or", "and"} =>
    LET v(n) == (CHOOSE x \in Table[c.a[1]] : x[1] = n)[2]
        x == v(c.a[2])
        y == v(c.a[3])
    IN IF c.op = "or" THEN Common(c.r, x) = x /\ Common(c.r, y) = y ELSE Joined(c.r, x) = x /\ Joined(c.r, y) = y
=============================================================================

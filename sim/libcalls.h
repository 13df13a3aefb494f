// Library calls that may be told to fail (a list, read by vfbuild.py as well).
LIB(EVP_CIPHER_CTX_new)
LIB(EVP_EncryptInit)
LIB(EVP_EncryptInit_ex)
LIB(EVP_EncryptInit_ex2)
LIB(EVP_EncryptUpdate)
LIB(EVP_CipherInit)
LIB(EVP_CipherInit_ex)
LIB(EVP_CipherInit_ex2)
LIB(EVP_CipherUpdate)
LIB(EVP_DecryptInit_ex)
LIB(EVP_DecryptUpdate)
LIB(EVP_CIPHER_fetch)
LIB(EVP_MD_fetch)
LIB(EVP_MD_CTX_new)
LIB(EVP_DigestInit)
LIB(EVP_DigestInit_ex)
LIB(EVP_DigestInit_ex2)
LIB(EVP_DigestUpdate)
LIB(EVP_DigestFinal)
LIB(EVP_DigestFinal_ex)
LIB(EVP_DigestFinalXOF)
LIB(EVP_Digest)
LIB(EVP_Q_digest)
LIB(SHA256)
LIB(SHA512)
LIB(RAND_bytes)
LIB(RAND_priv_bytes)

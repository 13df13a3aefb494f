// The hash, extendable-output and keystream functions an implementation may have.
P(shake128) P(shake256) P(sha3_256) P(sha3_512) P(sha256) P(sha512)
P(cshake128_simple) P(cshake128_simple_absorb) P(cshake128_simple_squeezeblocks)
P(saber_aes256ctr_prf) P(aes256ctr_prf) P(aes256ctr_init) P(aes256ctr_squeezeblocks) P(crypto_stream_aes256ctr)
P(shake128x4) P(shake256x4) P(sha3_256x4) P(sha3_512x4) P(shake128x4_squeezeblocks)
P(KeccakP1600times4_InitializeAll) P(KeccakP1600times4_AddBytes) P(KeccakP1600times4_AddLanesAll)
P(KeccakP1600times4_OverwriteBytes) P(KeccakP1600times4_OverwriteLanesAll) P(KeccakP1600times4_OverwriteWithZeroes)
P(KeccakP1600times4_PermuteAll_12rounds) P(KeccakP1600times4_PermuteAll_24rounds)
P(KeccakP1600times4_ExtractBytes) P(KeccakP1600times4_ExtractLanesAll)
P(KeccakP1600times4_ExtractAndAddBytes) P(KeccakP1600times4_ExtractAndAddLanesAll)
P(KeccakF1600times4_FastLoop_Absorb) P(KeccakP1600times4_12rounds_FastLoop_Absorb)

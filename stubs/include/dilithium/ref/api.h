// Interface of the Dilithium reference implementation (its sources are not part of /repo's checkout).
#ifndef VSA_DILITHIUM_API_H
#define VSA_DILITHIUM_API_H
#define CRYPTO_PUBLICKEYBYTES 1472U
#define CRYPTO_SECRETKEYBYTES 3504U
#define CRYPTO_BYTES 2701U
#ifdef __cplusplus
extern "C" {
#endif
int crypto_sign_keypair(unsigned char *pk, unsigned char *sk);
int crypto_sign(unsigned char *sm, unsigned long long *smlen, const unsigned char *m, unsigned long long mlen, const unsigned char *sk);
int crypto_sign_open(unsigned char *m, unsigned long long *mlen, const unsigned char *sm, unsigned long long smlen, const unsigned char *pk);
#ifdef __cplusplus
}
#endif
#endif

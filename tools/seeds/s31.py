ID = 's31-kyber-short-secret'
PROP = 'C22'
EDITS = [('src/kyber/kyber.cpp', "    if (sk.size()!=KYBER_SECRETKEYBYTES)", "    if (sk.size()>KYBER_SECRETKEYBYTES)")]
NEEDS = 'a secret key shorter than KYBER_SECRETKEYBYTES'
BREAKS = 'the key pair is accepted and decapsulation reads past its end'
DEMO = r'''
#include <cstdio>
#include <stdexcept>
#include "kyber/kyber.cpp"
extern "C" int crypto_kem_keypair(unsigned char *, unsigned char *) { return 0; }
extern "C" int crypto_kem_enc(unsigned char *, unsigned char *, const unsigned char *) { return 0; }
extern "C" int crypto_kem_dec(unsigned char *, const unsigned char *, const unsigned char *) { return 0; }
int main()
{
    int bad = 0;
    for (long d : {-KYBER_SECRETKEYBYTES, -KYBER_SECRETKEYBYTES + 1, -1, 1, 100}) {
        std::vector<uint8_t> pk(KYBER_PUBLICKEYBYTES), sk(KYBER_SECRETKEYBYTES + d);
        try { Kyber k(pk, sk); printf("secret key of %zu bytes accepted\n", sk.size()); bad = 1; }
        catch (const std::exception &) { }
    }
    return bad;
}
'''

#pragma once
#ifdef __cplusplus
extern "C" {
#endif
void randombytes(unsigned char *x, unsigned long long xlen);
#ifdef __cplusplus
}
#endif

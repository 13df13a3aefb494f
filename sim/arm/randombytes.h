#ifndef SIM_RANDOMBYTES_H
#define SIM_RANDOMBYTES_H
#include <stddef.h>
#include <stdint.h>
int randombytes(uint8_t *output, size_t n);
#endif

#pragma once
#include <cstdint>
#include <cstddef>
#include <bls.hpp>
static inline int sodium_init() { return 0; }
static inline void randombytes_buf(void* p, size_t n) { const auto r = cli_fn(FN_RANDOM, {}, n); for(size_t i = 0; i < n; ++i) ((uint8_t*)p)[i] = r[i]; }

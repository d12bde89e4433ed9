#pragma once
#include "crypto_stub.h"
#define ARGON2_OK 0
inline int argon2id_hash_raw(uint32_t t, uint32_t m, uint32_t p, const void* pw, size_t pn, const void* salt, size_t sn, void* out, size_t n)
{
    uint64_t q[4] = {t, m, p, sn};
    if (!t || !m || !p)
        return -2;
    std::string r = symc::fn(symc::ALG_ARGON2, symc::S(pw, pn), symc::S(q, 32) + symc::S(salt, sn), n);
    memcpy(out, r.data(), n);
    return 0;
}

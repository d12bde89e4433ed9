// plain meaning of the helpers used by absl_stub.h (absl's string_view differs from std's in this distribution's build)
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
inline void sym_fail(const char* m)
{
    fprintf(stderr, "%s\n", m);
    abort();
}
inline int sym_eq(const void* a, const void* b, size_t n) { return memcmp(a, b, n) == 0; }
inline uint64_t sym_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }

// Harness API. In the symbolic build these are built-ins of the engine; in the native replay build
// they are implemented by rt_native.cpp, which feeds the values of a counterexample.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>

extern "C"
{
    void sym_make(void* p, size_t n, const char* name);
    void sym_assume(int cond);
    void sym_assert(int cond, const char* msg);
    void sym_fail(const char* msg);
    void sym_reach(const char* tag);
    uint64_t sym_conc(uint64_t v);
    int sym_eq(const void* a, const void* b, size_t n);
    uint64_t sym_ite(int c, uint64_t a, uint64_t b);
    long long sym_param(const char* name, long long dflt);
    void sym_print(const char* msg, uint64_t v);
    int sym_native(void);
    int sym_is_symbolic(uint64_t v);
    int sym_live(const void* p);
    uint64_t sym_alloc_size(const void* p);
    int sym_defined(const void* p, size_t n);
    // Runs f on thread t (0: the main one, up to 3 others) and waits; thread-local variables are per thread.
    void sym_on_thread(int t, void (*f)(void*), void* arg);
    // Ends thread t: destroys its thread-local objects. The number may be used again for a new thread.
    void sym_thread_end(int t);
    // Threads with stacks of their own (see sym_threads.h): creates thread t (1..3); hands control to thread t.
    void sym_thread_new(int t, void (*f)(void*), void* arg);
    void sym_thread_switch(int t);
    // Detection of data races between those threads. 0/1: stop, start; 2/3: begin, end a region of this thread which is
    // not watched; 4/5: this thread acquires, releases p
    void sym_race(int what, const void* p);
}
namespace sched
{
struct Quiet
{
#ifdef SYM_SCHED
    Quiet() { sym_race(2, nullptr); }
    ~Quiet() { sym_race(3, nullptr); }
#else
    Quiet() {}
#endif
};
}    // namespace sched

inline uint8_t sym_u8(const char* name)
{
    uint8_t v = 0;
    sym_make(&v, 1, name);
    return v;
}
inline uint16_t sym_u16(const char* name)
{
    uint16_t v = 0;
    sym_make(&v, 2, name);
    return v;
}
inline uint32_t sym_u32(const char* name)
{
    uint32_t v = 0;
    sym_make(&v, 4, name);
    return v;
}
inline uint64_t sym_u64(const char* name)
{
    uint64_t v = 0;
    sym_make(&v, 8, name);
    return v;
}
// symbolic integer lo <= v <= hi
inline uint64_t sym_range(uint64_t lo, uint64_t hi, const char* name)
{
    if (lo == hi)
        return lo;
    uint64_t d = hi - lo, v = 0;
    unsigned n = 1;
    while (n < 8 && (d >> (8 * n)))
        ++n;
    sym_make(&v, n, name);
    sym_assume(v <= d);
    return lo + v;
}
// concrete (forked) integer lo <= v <= hi
inline uint64_t sym_choice(uint64_t lo, uint64_t hi, const char* name)
{
    return sym_conc(sym_range(lo, hi, name));
}
inline bool sym_flag(const char* name)
{
    return sym_range(0, 1, name) != 0;
}
inline bool sym_fork_flag(const char* name)
{
    return sym_conc(sym_range(0, 1, name)) != 0;
}
inline std::string sym_bytes(size_t n, const char* name)
{
    std::string s(n, '\0');
    if (n)
        sym_make(&s[0], n, name);
    return s;
}
#define STR2(x) #x
#define STR1(x) STR2(x)
#define CHECK(c, m) sym_assert((c) ? 1 : 0, m)

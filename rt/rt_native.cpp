// Native replay runtime: values come from a file of lines "name hex", in the order of creation.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <condition_variable>
#include <exception>
#include <mutex>
#include <thread>
#include <new>
#include <vector>
#include <unistd.h>
static std::vector<std::pair<std::string, std::string>> g_in;
static size_t g_pos;
static std::map<std::string, long long> g_par;
static bool g_loaded;
static bool g_lenient;
static void finish(int code)
{
    fflush(stdout);
    fflush(stderr);
    _exit(code);
}
static void load()
{
    if (g_loaded)
        return;
    g_loaded = true;
    const char* f = getenv("SYM_INPUT");
    g_lenient = getenv("SYM_LENIENT") != nullptr;
    if (f)
    {
        std::ifstream in(f);
        std::string k, v;
        while (in >> k >> v)
        {
            if (k == "param")
            {
                size_t p = v.find('=');
                g_par[v.substr(0, p)] = atoll(v.c_str() + p + 1);
                continue;
            }
            std::string b;
            if (v != "-")
                for (size_t i = 0; i + 1 < v.size(); i += 2)
                    b.push_back((char)strtoul(v.substr(i, 2).c_str(), nullptr, 16));
            g_in.emplace_back(k, b);
        }
    }
}
extern "C"
{
    void sym_make(void* p, size_t n, const char* name)
    {
        load();
        if (g_pos >= g_in.size())
        {
            memset(p, 0, n);
            return;
        }
        auto& e = g_in[g_pos++];
        if (e.second.size() != n)
        {
            printf("DIVERGED at %s: expected size %zu got %zu (%s)\n", name, n, e.second.size(), e.first.c_str());
            finish(4);
        }
        memcpy(p, e.second.data(), n);
    }
    void sym_assume(int c)
    {
        if (!c)
        {
            puts("ASSUMPTION-FALSE");
            finish(3);
        }
    }
    void sym_assert(int c, const char* m)
    {
        if (!c)
        {
            printf("ASSERT-FAILED %s\n", m);
            finish(77);
        }
    }
    void sym_fail(const char* m) { sym_assert(0, m); }
    void sym_reach(const char* t) { printf("REACH %s\n", t); }
    uint64_t sym_conc(uint64_t v) { return v; }
    int sym_eq(const void* a, const void* b, size_t n) { return memcmp(a, b, n) == 0; }
    uint64_t sym_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
    long long sym_param(const char* name, long long d)
    {
        load();
        auto it = g_par.find(name);
        return it == g_par.end() ? d : it->second;
    }
    void sym_print(const char* m, uint64_t v) { printf("PRINT %s %llu\n", m, (unsigned long long)v); }
    int sym_native(void) { return 1; }
    int sym_is_symbolic(uint64_t) { return 0; }
    int sym_live(const void* p) { return p != nullptr; }
    uint64_t sym_alloc_size(const void*) { return 0; }
    int sym_defined(const void*, size_t) { return 1; }
    void sym_rt_bad_alloc() { throw std::bad_alloc(); }
}
// Threads with hand-over: one runs at a time.
namespace
{
struct Worker
{
    std::mutex m;
    std::condition_variable c;
    void (*f)(void*) = nullptr;
    void* arg = nullptr;
    bool done = false, stop = false;
    std::exception_ptr ex;
    std::thread t;
    Worker()
        : t(
              [this]()
              {
                  std::unique_lock<std::mutex> l(m);
                  for (;;)
                  {
                      c.wait(l, [this]() { return f || stop; });
                      if (stop)
                          return;
                      try
                      {
                          f(arg);
                      }
                      catch (...)
                      {
                          ex = std::current_exception();
                      }
                      f = nullptr;
                      done = true;
                      c.notify_all();
                  }
              })
    {
    }
    void run(void (*fn)(void*), void* a)
    {
        std::unique_lock<std::mutex> l(m);
        f = fn;
        arg = a;
        done = false;
        ex = nullptr;
        c.notify_all();
        c.wait(l, [this]() { return done; });
        if (ex)
            std::rethrow_exception(ex);
    }
    void end()
    {
        {
            std::unique_lock<std::mutex> l(m);
            stop = true;
            c.notify_all();
        }
        t.join();
    }
};
Worker* g_workers[4];
}    // namespace
extern "C"
{
    void sym_on_thread(int t, void (*f)(void*), void* arg)
    {
        if (!t)
            return f(arg);
        if (!g_workers[t])
            g_workers[t] = new Worker;
        g_workers[t]->run(f, arg);
    }
    void sym_thread_end(int t)
    {
        if (!g_workers[t])
            return;
        g_workers[t]->end();
        delete g_workers[t];
        g_workers[t] = nullptr;
    }
}
// Threads which hand over explicitly, by means that ThreadSanitizer does not see.
namespace
{
int g_running;
thread_local int g_me, g_quiet;
void wait_turn()
{
    while (__atomic_load_n(&g_running, __ATOMIC_SEQ_CST) != g_me)
        sched_yield();
}
}    // namespace
#ifdef SYM_TSAN
extern "C"
{
    void AnnotateIgnoreReadsBegin(const char*, int);
    void AnnotateIgnoreReadsEnd(const char*, int);
    void AnnotateIgnoreWritesBegin(const char*, int);
    void AnnotateIgnoreWritesEnd(const char*, int);
    void AnnotateIgnoreSyncBegin(const char*, int);
    void AnnotateIgnoreSyncEnd(const char*, int);
    void __tsan_acquire(void*);
    void __tsan_release(void*);
}
extern "C" void sym_race(int what, const void* p)
{
    if (what == 2 && !g_quiet++)
    {
        AnnotateIgnoreReadsBegin("", 0);
        AnnotateIgnoreWritesBegin("", 0);
        AnnotateIgnoreSyncBegin("", 0);
    }
    if (what == 3 && !--g_quiet)
    {
        AnnotateIgnoreReadsEnd("", 0);
        AnnotateIgnoreWritesEnd("", 0);
        AnnotateIgnoreSyncEnd("", 0);
    }
    if (what < 4)
        return;
    if (g_quiet)
        AnnotateIgnoreSyncEnd("", 0);
    if (what == 4)
        __tsan_acquire((void*)p);
    else
        __tsan_release((void*)p);
    if (g_quiet)
        AnnotateIgnoreSyncBegin("", 0);
}
#else
extern "C" void sym_race(int, const void*) {}
#endif
extern "C"
{
    void sym_thread_new(int t, void (*f)(void*), void* arg)
    {
        std::thread(
            [=]
            {
                g_me = t;
                wait_turn();
                try
                {
                    f(arg);
                }
                catch (...)
                {
                    puts("ASSERT-FAILED uncaught exception");
                }
                finish(77);
            })
            .detach();
    }
    void sym_thread_switch(int t)
    {
        __atomic_store_n(&g_running, t, __ATOMIC_SEQ_CST);
        wait_turn();
    }
}
extern "C" void SYM_ENTRY(void);
int main()
{
    setvbuf(stdout, nullptr, _IOLBF, 0);
    try
    {
        SYM_ENTRY();
    }
    catch (...)
    {
        puts("ASSERT-FAILED uncaught exception");
        finish(77);
    }
    puts("COMPLETED");
    finish(0);
}

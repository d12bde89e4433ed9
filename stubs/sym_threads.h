// Cooperative scheduler of the concurrency harnesses (-DSYM_SCHED). A thread may lose the processor at every point()
// -- before a lock is taken, after it is released, after an atomic read-modify-write, at an operating system call --
// as long as the budget of preemptions lasts, and always when it has to wait or ends. Which thread goes on is a
// symbolic variable.
#pragma once
#include "sym.h"
#include <atomic>
#include <type_traits>
namespace sched
{
constexpr int N = 4;
struct Thread
{
    bool live = false;
    bool (*ready)(void*) = nullptr;
    void* arg = nullptr;
    void (*f)(void*) = nullptr;
    void* a = nullptr;
};
struct World
{
    Thread t[N];
    int cur = 0, budget = 0, quiet = 0;
    bool on = false, watch = false;    // watch: for data races
    __int128 until[N];    // the time each thread waits for, if until_set
    bool until_set[N] = {};
    bool (*idle)() = nullptr;    // called when every thread waits: lets time pass, false if nothing will ever happen
};
inline World w;
// an access to a variable that synchronises threads
struct Atomic
{
    Quiet q_;
    explicit Atomic(const void* p)
    {
        sym_race(4, p);
        sym_race(5, p);
    }
};
inline int current()
{
    Quiet q_;
    return w.cur;
}
// the first time after now that a thread waits for
inline bool wakes(__int128 now, __int128& t)
{
    bool any = false;
    for (int i = 0; i < N; ++i)
        if (w.until_set[i] && w.until[i] > now && (!any || w.until[i] < t))
        {
            t = w.until[i];
            any = true;
        }
    return any;
}
inline bool runnable(int i) { return w.t[i].live && (!w.t[i].ready || w.t[i].ready(w.t[i].arg)); }
inline void to(int i)
{
    if (i == w.cur)
        return;
    w.cur = i;
    sym_thread_switch(i);
}
inline int others(int* v)
{
    int n = 0;
    for (int i = 0; i < N; ++i)
        if (i != w.cur && runnable(i))
            v[n++] = i;
    return n;
}
inline void point()
{
    Quiet q_;
    if (!w.on || w.budget <= 0 || w.quiet)
        return;
    int v[N], n = others(v);
    if (!n)
        return;
    int c = (int)sym_choice(0, n, "switch");
    if (c)
    {
        --w.budget;
        to(v[c - 1]);
    }
}
inline void away(const char* what)
{
    int v[N], n;
    while (!(n = others(v)))
    {
        if (!w.idle || !w.idle())
            sym_fail(what);
        if (runnable(w.cur))
        {
            n = others(v);
            v[n++] = w.cur;
            break;
        }
    }
    to(v[n == 1 ? 0 : sym_choice(0, n - 1, "next")]);
}
inline void block(bool (*ready)(void*), void* arg)
{
    Quiet q_;
    while (!ready(arg))
    {
        w.t[w.cur].ready = ready;
        w.t[w.cur].arg = arg;
        int me = w.cur;
        away("deadlock: every thread is waiting");
        w.t[me].ready = nullptr;
    }
}
inline void main_(void*)
{
    int me;
    Thread t;
    {
        Quiet q_;
        me = w.cur;
        t = w.t[me];
    }
    t.f(t.a);
    Quiet q_;
    sym_race(5, &w);
    sym_race(5, &w.t[me]);
    w.t[me].live = false;
    away("deadlock: every thread is waiting");
}
inline bool all_done(void*)
{
    for (int i = 1; i < N; ++i)
        if (w.t[i].live)
            return false;
    return true;
}
// runs the functions on threads 1.. and waits for them
template <size_t K>
inline void run(void (*const (&&f)[K])(void*), void* const (&&a)[K], int preemptions)
{
    static_assert(K < N, "too many threads");
    w.t[0].live = true;
    w.budget = preemptions;
    for (size_t i = 0; i < K; ++i)
    {
        w.t[i + 1] = Thread{true, nullptr, nullptr, f[i], a[i]};
        sym_thread_new((int)i + 1, &main_, nullptr);
    }
    w.on = true;
    if (w.watch)
        sym_race(1, nullptr);
    block(&all_done, nullptr);
    sym_race(4, &w);
    sym_race(0, nullptr);
    w.on = false;
}
// waits for the condition, which may depend on time t having come
inline void block_until(bool (*ready)(void*), void* arg, __int128 t)
{
    Quiet q_;
    int me = w.cur;
    w.until[me] = t;
    w.until_set[me] = true;
    block(ready, arg);
    w.until_set[me] = false;
}
struct Cancelled    // thrown by models of cancellation points
{
};
// threads which the code under test creates itself; begin() makes the caller thread 0
inline void begin(int preemptions)
{
    w.t[0].live = true;
    w.budget = preemptions;
    w.on = true;
    if (w.watch)
        sym_race(1, nullptr);
}
inline int spawn(void (*f)(void*), void* a)
{
    Quiet q_;
    int i = 1;
    while (i < N && w.t[i].f)
        ++i;
    if (i == N)
        sym_fail("too many threads for the model");
    w.t[i] = Thread{true, nullptr, nullptr, f, a};
    sym_thread_new(i, &main_, nullptr);
    point();
    return i;
}
inline bool ended(void* t) { return !((Thread*)t)->live; }
inline void join(int i)
{
    Quiet q_;
    block(&ended, &w.t[i]);
    sym_race(4, &w.t[i]);
}
}    // namespace sched
#include <functional>
#include <thread>
namespace std
{
// stands for std::thread in the code under test
class sym_thread
{
    int i_ = 0;
    static void run_(void* p)
    {
        auto f = (std::function<void()>*)p;
        try
        {
            (*f)();
        }
        catch (const sched::Cancelled&)
        {
        }
        delete f;
    }

public:
    using native_handle_type = pthread_t;
    sym_thread() noexcept = default;
    sym_thread(sym_thread&& o) noexcept : i_(o.i_) { o.i_ = 0; }
    sym_thread& operator=(sym_thread&& o) noexcept
    {
        if (i_)
            sym_fail("terminate: a thread was neither joined nor detached");
        i_ = o.i_;
        o.i_ = 0;
        return *this;
    }
    template <class F, class... A, class = enable_if_t<!is_same_v<decay_t<F>, sym_thread>>>
    explicit sym_thread(F&& f, A... a)
    {
        i_ = sched::spawn(&run_, new std::function<void()>([f = std::decay_t<F>(std::forward<F>(f)), a...]() mutable { f(a...); }));
    }
    ~sym_thread()
    {
        if (i_)
            sym_fail("terminate: a thread was neither joined nor detached");
    }
    bool joinable() const noexcept { return i_ != 0; }
    void join()
    {
        if (!i_)
            sym_fail("joined a thread which is not joinable");
        sched::join(i_);
        i_ = 0;
    }
    void detach() { i_ = 0; }
    native_handle_type native_handle() { return (native_handle_type)i_; }
    static unsigned hardware_concurrency() noexcept { return (unsigned)sym_param("processors", 2); }
};
// stands for std::atomic in the code under test
template <class T>
class sym_atomic
{
    T v_;

public:
    sym_atomic() noexcept : v_() {}
    constexpr sym_atomic(T v) noexcept : v_(v) {}
    sym_atomic(const sym_atomic&) = delete;
    sym_atomic& operator=(const sym_atomic&) = delete;
    operator T() const noexcept { return load(); }
    T load(memory_order = memory_order_seq_cst) const noexcept
    {
        sched::Atomic a_(this);
        return v_;
    }
    void store(T v, memory_order = memory_order_seq_cst) noexcept
    {
        sched::Atomic a_(this);
        v_ = v;
    }
    T operator=(T v) noexcept
    {
        store(v);
        return v;
    }
    T fetch_add(T d, memory_order = memory_order_seq_cst) noexcept
    {
        sched::Atomic a_(this);
        T o = v_;
        v_ = o + d;
        sched::point();
        return o;
    }
    T fetch_sub(T d, memory_order = memory_order_seq_cst) noexcept
    {
        sched::Atomic a_(this);
        T o = v_;
        v_ = o - d;
        sched::point();
        return o;
    }
    T operator++() noexcept { return fetch_add(1) + 1; }
    T operator--() noexcept { return fetch_sub(1) - 1; }
    T operator++(int) noexcept { return fetch_add(1); }
    T operator--(int) noexcept { return fetch_sub(1); }
    T operator+=(T d) noexcept { return fetch_add(d) + d; }
    T operator-=(T d) noexcept { return fetch_sub(d) - d; }
    T exchange(T n, memory_order = memory_order_seq_cst) noexcept
    {
        sched::Atomic a_(this);
        T o = v_;
        v_ = n;
        sched::point();
        return o;
    }
    bool compare_exchange_strong(T& e, T n, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst) noexcept
    {
        sched::Atomic a_(this);
        bool ok = v_ == e;
        if (ok)
            v_ = n;
        else
            e = v_;
        sched::point();
        return ok;
    }
    bool compare_exchange_weak(T& e, T n, memory_order a = memory_order_seq_cst, memory_order b = memory_order_seq_cst) noexcept
    {
        return compare_exchange_strong(e, n, a, b);
    }
};
}    // namespace std
#include <condition_variable>
#include <future>
#include <memory>
#include <mutex>
#define atomic sym_atomic
#define thread sym_thread

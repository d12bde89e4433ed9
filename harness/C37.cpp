// How a mount ends: the real loop around libfuse, with its threads, signals, idle timer and unmount requests, on a model
// of libfuse's sessions, of POSIX threads' cancellation and of time.
#include "sym.h"
#include "exceptions.h"
#include "fuse2_workaround.h"
#include "fuse_high_level_ops_base.h"
#include "fuse_hook.h"
#include "fuse_tracer_v2.h"
#include "platform.h"
#include "ops_list.h"
#include <csignal>
#include <fuse_lowlevel.h>
#include <memory>
#include <sys/syscall.h>
#include <vector>
using namespace securefs;
namespace
{
using Ns = int64_t;
constexpr Ns NEVER = INT64_MAX;
Ns g_now;
bool g_cancel[sched::N], g_disabled[sched::N], g_cancelling[sched::N];
enum Kind { OP, UNMOUNT, QUERY, INTR, GONE, BROKEN, SIGNAL };
struct Event
{
    Kind kind;
    Ns at;
    Ns takes = 0;    // how long the operation runs
};
std::vector<Event> g_events;
size_t g_next;
Ns g_signal = NEVER;    // when a signal comes
std::vector<char> g_pipe;
enum { F_NONE, F_PIPE, F_FCNTL, F_SETUP, F_CLEANUP, F_CHAN };
int g_fault;
int g_setups, g_torn, g_cleanups, g_stopped, g_begun, g_done, g_handled, g_early;
bool g_nonblock, g_exited, g_threads, g_worker[sched::N];
Ns g_returned, g_finished, g_last, g_before, g_idle, g_ended = NEVER;    // last activity, the one at an earlier time; the time without activity after which to end; when asked to end
void (*g_handler[32])(int);
fuse_context g_ctx;
FuseHighLevelOpsBase* g_ops;
void cause()
{
    if (g_ended == NEVER)
        g_ended = g_now;
}
void signal_arrives(int sig)
{
    CHECK(!!g_handler[sig], "signal kills the process");
    cause();
    errno = 77;
    g_handler[sig](sig);
    CHECK(errno == 77, "signal handler changes errno");
}
bool sleep_over(void* p) { return g_now >= *(Ns*)p; }
void sleep_until(Ns t)
{
    sched::Quiet q_;
    sched::block_until(&sleep_over, &t, t);
}
int g_sig[] = {SIGINT, SIGTERM, SIGHUP};
// every thread waits: the next thing happens
bool idle()
{
    CHECK(!g_idle || g_ended != NEVER || g_now < g_last + g_idle, "does not unmount when idle");
    Ns t = NEVER;
    __int128 next;
    if (sched::wakes(g_now, next))
        t = (Ns)next;
    if (g_idle && g_ended == NEVER && g_last + g_idle > g_now && g_last + g_idle < t)
        t = g_last + g_idle;
    if (g_next < g_events.size() && g_events[g_next].at > g_now && g_events[g_next].at < t)
        t = g_events[g_next].at;
    bool signal = g_signal != NEVER && (g_signal <= g_now || g_signal <= t);
    if (signal)
    {
        t = g_signal > g_now ? g_signal : g_now;
        g_signal = NEVER;
    }
    if (t == NEVER)
        return false;
    g_now = t;
    if (signal)
    {
        ++sched::w.quiet;
        signal_arrives(g_sig[sym_choice(0, 2, "signal")]);
        --sched::w.quiet;
    }
    return true;
}
void cancellation_point()
{
    int me = sched::current();
    if (g_cancel[me] && !g_disabled[me] && !g_cancelling[me])
    {
        g_cancelling[me] = true;
        throw sched::Cancelled();
    }
}
bool received(void*)
{
    return g_next < g_events.size() && g_events[g_next].at <= g_now;
}
struct Wait
{
    int me;
};
bool receivable(void* p) { return received(nullptr) || (g_cancel[((Wait*)p)->me] && !g_disabled[((Wait*)p)->me]); }
bool readable(void*) { return !g_pipe.empty(); }
int g_taken[sched::N];
int act(const char* name)
{
    (void)name;
    int me;
    Ns t;
    {
        sched::Quiet q_;
        me = sched::current();
        ++g_begun;
        t = g_events[g_taken[me]].takes;
        CHECK(!g_torn, "operation after the end");
    }
    sleep_until(g_now + t);
    sched::Quiet q_;
    g_finished = g_now;
    ++g_done;
    return 0;
}
enum
{
#define X(name, args, call) N_##name,
    OPS(X)
#undef X
};
struct Ops final : FuseHighLevelOpsBase
{
    void initialize(fuse_conn_info*) override {}
#define X(name, args, call) \
    int v##name args override { return act(#name); } \
    bool has_##name() const override { return N_##name == N_getattr; }
    OPS(X)
#undef X
    int vgetpath(const char*, char*, size_t, fuse_file_info*, const fuse_context*) override { return act("getpath"); }
};
fuse_operations g_table;
int session_, channel_, fuse_;
}    // namespace
absl::Time absl::sym_now_hook()
{
    sched::Quiet q_;
    return absl::Time(g_now);
}
extern "C"
{
    fuse_context* fuse_get_context() { return &g_ctx; }
    struct fuse* fuse_setup(int, char**, const fuse_operations*, size_t, char** m, int* mt, void*)
    {
        CHECK(!g_setups++, "set up twice");
        if (g_fault == F_SETUP)
            return nullptr;
        *m = (char*)"/m";
        *mt = g_threads;
        return (struct fuse*)&fuse_;
    }
    void fuse_teardown(struct fuse* f, char* m)
    {
        sched::Quiet q_;
        CHECK(f == (struct fuse*)&fuse_ && !strcmp(m, "/m") && !g_torn++, "torn down");
        CHECK(g_begun == g_done, "an operation is abandoned");
        for (int i = 1; i < sched::N; ++i)
            CHECK(!sched::w.t[i].live || !g_worker[i], "a thread outlives the session");
    }
    int fuse_start_cleanup_thread(struct fuse*)
    {
        if (g_fault == F_CLEANUP)
            return -1;
        ++g_cleanups;
        return 0;
    }
    void fuse_stop_cleanup_thread(struct fuse*)
    {
        CHECK(!g_torn, "torn down early");
        ++g_stopped;
    }
    struct fuse_session* fuse_get_session(struct fuse*) { return (struct fuse_session*)&session_; }
    struct fuse_chan* fuse_session_next_chan(struct fuse_session*, struct fuse_chan*)
    {
        return g_fault == F_CHAN ? nullptr : (struct fuse_chan*)&channel_;
    }
    size_t fuse_chan_bufsize(struct fuse_chan*) { return 8; }
    int fuse_session_exited(struct fuse_session*)
    {
        sched::Quiet q_;
        sched::point();
        return g_exited;
    }
    void fuse_session_exit(struct fuse_session*)
    {
        sched::Quiet q_;
        sched::point();
        CHECK(!g_torn && g_setups, "session");
        CHECK(g_ended <= g_now || (g_idle && g_now >= (g_last == g_now ? g_before : g_last) + g_idle), "unmounts unasked");
        if (g_ended == NEVER)
            g_ended = g_now;
        CHECK(g_now == g_ended, "unmounts late");
        g_exited = true;
    }
    int fuse_session_receive_buf(struct fuse_session*, struct fuse_buf* b, struct fuse_chan**)
    {
        sched::Quiet q_;
        CHECK(!g_torn && b->mem && b->size == 8, "receives after the end");
        cancellation_point();
        int me = sched::current();
        g_worker[me] = true;
        Wait w{me};
        sched::block(&receivable, &w);
        if (!received(nullptr))
            cancellation_point();
        auto i = g_next++;
        auto& e = g_events[i];
        g_taken[me] = (int)i;
        switch (e.kind)
        {
        case INTR:
            return -EINTR;
        case GONE:
            cause();
            return 0;
        case BROKEN:
            cause();
            return -ENODEV;
        default:
            *(char*)b->mem = (char)e.kind;
            return 1;
        }
    }
    void fuse_session_process_buf(struct fuse_session*, const struct fuse_buf* b, struct fuse_chan*)
    {
        Kind k;
        {
            sched::Quiet q_;
            k = (Kind) * (char*)b->mem;
            CHECK(!g_torn && g_ended >= g_now, "session");
            if (k == OP && g_last != g_now)
            {
                g_before = g_last;
                g_last = g_now;
            }
            if (k == UNMOUNT)
                cause();
            ++g_handled;
        }
        // the request is read from the device, the answer written to it
        cancellation_point();
        if (k == OP)
        {
            fuse_stat st;
            g_table.getattr("/", &st);
        }
        else
        {
            unsigned v = 0;
            int rc = g_table.ioctl("/",
                                   k == UNMOUNT ? OSService::get_cmd_for_trigger_unmount_ioctl() : OSService::get_cmd_for_query_ioctl(),
                                   nullptr,
                                   nullptr,
                                   0,
                                   &v);
            CHECK(rc == 0 && (k == UNMOUNT || v == OSService::get_magic_for_mounted_status()), "control call");
        }
        cancellation_point();
    }
    int pthread_cancel(pthread_t t)
    {
        sched::Quiet q_;
        sched::point();
        CHECK(t > 0 && t < sched::N && sched::w.t[t].f, "cancels no thread");
        g_cancel[t] = true;
        return 0;
    }
    int pthread_setcancelstate(int s, int* old)
    {
        sched::Quiet q_;
        int me = sched::current();
        if (old)
            *old = g_disabled[me] ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE;
        g_disabled[me] = s == PTHREAD_CANCEL_DISABLE;
        return 0;
    }
    int pthread_sigmask(int, const sigset_t*, sigset_t*) noexcept { return 0; }
    int sigemptyset(sigset_t*) noexcept { return 0; }
    int sigaddset(sigset_t*, int) noexcept { return 0; }
    int sigaction(int sig, const struct sigaction* a, struct sigaction*) noexcept
    {
        sched::Quiet q_;
        g_handler[sig] = a->sa_handler;
        if (g_early == sig)
        {
            g_early = 0;
            signal_arrives(sig);
        }
        sched::point();
        return 0;
    }
    int pipe(int* fd) noexcept
    {
        if (g_fault == F_PIPE)
        {
            errno = EMFILE;
            return -1;
        }
        sched::Quiet q_;    // no idle time is over this early
        fd[0] = 900;
        fd[1] = 901;
        return 0;
    }
    int fcntl(int fd, int cmd, ...)
    {
        if (g_fault == F_FCNTL)
        {
            errno = EPERM;
            return -1;
        }
        CHECK(fd == 901 && cmd == F_SETFL, "fcntl");
        g_nonblock = true;
        return 0;
    }
    ssize_t write(int fd, const void* p, size_t n)
    {
        if (fd < 900)
            return syscall(SYS_write, fd, p, n);
        {
            sched::Quiet q_;
            CHECK(fd == 901 && n == 1, "write");
        }
        cancellation_point();
        sched::Quiet q_;
        g_pipe.push_back(*(const char*)p);
        sched::point();
        return 1;
    }
    ssize_t read(int fd, void* p, size_t n)
    {
        if (fd < 900)
            return syscall(SYS_read, fd, p, n);
        sched::Quiet q_;
        CHECK(fd == 900 && n == 1, "read");
        sched::block(&readable, nullptr);
        static bool once;
        if (!once && sym_fork_flag("interrupted"))
        {
            once = true;
            errno = EINTR;
            return -1;
        }
        *(char*)p = g_pipe.front();
        g_pipe.erase(g_pipe.begin());
        return 1;
    }
}
namespace securefs
{
unsigned OSService::get_cmd_for_query_ioctl() noexcept { return 0x80046d71; }
unsigned OSService::get_cmd_for_trigger_unmount_ioctl() noexcept { return 0x40046d72; }
std::string OSService::stringify_system_error(int) { return "error"; }
namespace trace
{
void FuseTracer::print_function_starts(Logger*, const char*, int, const WrappedFuseArg*, size_t) {}
void FuseTracer::print_function_returns(Logger*, const char*, int, const WrappedFuseArg*, size_t, int) {}
void FuseTracer::print_function_exception(Logger*, const char*, int, const WrappedFuseArg*, size_t, const std::exception&, int) {}
}    // namespace trace
}    // namespace securefs
namespace
{
Ns span(const char* name) { return (Ns)sym_range(0, 15, name); }
int serve()
{
    char arg[] = "securefs";
    char* argv[] = {arg, nullptr};
    std::shared_ptr<FuseHighLevelOpsBase> ops = std::make_shared<Ops>();
    if (g_idle)
        ops = std::make_shared<HookedFuseHighLevelOps>(ops, std::make_shared<IdleShutdownHook>(absl::Duration(g_idle)));
    ops = wrap_as_unmountable_fuse(ops);
    g_ops = ops.get();
    g_ctx.private_data = g_ops;
    g_table = FuseHighLevelOpsBase::build_ops(g_ops);
    int rc = my_fuse_main(1, argv, &g_table, g_ops);
    g_returned = g_now;
    return rc;
}
}    // namespace
// what fails before the file system serves
extern "C" void h_setup()
{
    sched::w.idle = &idle;
    g_fault = (int)sym_choice(F_PIPE, F_CHAN, "fault");
    g_threads = sym_choice(0, 1, "multithreaded");
    sched::begin(0);
    int rc = 0, err = 0;
    try
    {
        rc = serve();
    }
    catch (const ExceptionBase& e)
    {
        err = e.error_number();
    }
    bool thrown = g_fault == F_PIPE || g_fault == F_FCNTL;
    CHECK(thrown ? err == (g_fault == F_PIPE ? EMFILE : EPERM) : rc != 0 && !err, "failure is not reported");
    CHECK(g_torn == (g_fault >= F_CLEANUP) && g_cleanups == g_stopped && g_setups == !thrown, "not undone");
    CHECK(!g_begun && !g_exited, "serves");
    sym_reach(thrown ? "thrown" : "returned");
}
extern "C" void h_end()
{
    sched::w.idle = &idle;
    sched::w.watch = true;
    if (sym_choice(0, 1, "idle timer"))
    {
        g_idle = span("idle time");
        sym_assume(g_idle > 0);
    }
    else
        g_threads = sym_choice(0, 1, "multithreaded");
    int n = (int)sym_choice(0, (int)sym_param("events", 2), "events");
    Ns t = 0;
    for (int i = 0; i < n; ++i)
    {
        t += span("gap");
        Kind k = (Kind)sym_choice(OP, g_signal == NEVER ? SIGNAL : BROKEN, "kind");
        if (k == SIGNAL)
            g_signal = t;
        else
            g_events.push_back({k, t, k == OP ? span("takes") : 0});
    }
    if (!g_idle && g_signal == NEVER)
        g_signal = t + 100;
    if (sym_choice(0, 1, "early"))
        g_early = g_sig[sym_choice(0, 2, "which")];
    sched::begin((int)sym_param("preemptions", 1));
    int rc = serve();
    CHECK(g_torn == 1 && g_cleanups == 1 && g_stopped == 1, "not torn down");
    CHECK(g_begun == g_done, "an operation is abandoned");
    CHECK(g_exited && g_ended != NEVER, "ended unasked");
    CHECK(g_now == g_returned, "waits after the end");
    CHECK(g_returned == g_ended || (g_returned > g_ended && g_returned == g_finished), "ends late");
    int broken = 0, requests = 0;
    for (size_t i = 0; i < g_next; ++i)
    {
        broken |= g_events[i].kind == BROKEN;
        requests += g_events[i].kind == OP || g_events[i].kind == QUERY || g_events[i].kind == UNMOUNT;
    }
    CHECK(g_handled == requests, "a request is not answered");
    CHECK(rc == (broken ? -ENODEV : 0), "result");
    sym_reach(broken ? "broken" : g_idle && g_next == g_events.size() ? "idle" : "ended");
}

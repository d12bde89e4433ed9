// Every callback of the operation table, with the real operations replaced by one that ends in an arbitrary way.
#include "sym.h"
#include "exceptions.h"
#include "fuse2_workaround.h"
#include "fuse_high_level_ops_base.h"
#include "fuse_hook.h"
#include "fuse_tracer_v2.h"
#include "platform.h"
#include "ops_list.h"
#include <memory>
#include <new>
#include <stdexcept>
#include <vector>
using namespace securefs;
static fuse_context g_ctx;
static int g_exits, g_notified, g_calls;
static const char* g_called;
static void (*g_inside)();
static size_t g_size;
static uint64_t g_args[8];
static unsigned g_nargs;
extern "C" fuse_context* fuse_get_context() { return &g_ctx; }
namespace securefs
{
void clean_exit_fuse() { ++g_exits; }
unsigned OSService::get_cmd_for_query_ioctl() noexcept { return 0x80046d71; }
unsigned OSService::get_cmd_for_trigger_unmount_ioctl() noexcept { return 0x40046d72; }
std::string OSService::stringify_system_error(int) { return "error"; }
#ifndef TRACED
namespace trace
{
// the printed text is outside the property
void FuseTracer::print_function_starts(Logger*, const char*, int, const WrappedFuseArg*, size_t) {}
void FuseTracer::print_function_returns(Logger*, const char*, int, const WrappedFuseArg*, size_t, int) {}
void FuseTracer::print_function_exception(Logger*, const char*, int, const WrappedFuseArg*, size_t, const std::exception&, int) {}
}    // namespace trace
#endif
}    // namespace securefs
enum { RC, VFS, POSIX, ARG, LONG, META, MSG, XATTR, LITE, TYPE, CAST, UNREACH, RUNTIME, ALLOC, RANGE, BARE, ENDS };
static int g_end, g_value;
static const char TXT[] = "why";
[[noreturn]] static void raise_it()
{
    id_type id;
    switch (g_end)
    {
    case VFS:
        throwVFSException(g_value);
    case POSIX:
        THROW_POSIX_EXCEPTION(g_value, TXT);
    case ARG:
        throwInvalidArgumentException(TXT);
    case LONG:
        throw StreamTooLongException(5, 6);
    case META:
        throw CorruptedMetaDataException(id, TXT);
    case MSG:
        throw MessageVerificationException(id, 3);
    case XATTR:
        throw XattrVerificationException(id, TXT);
    case LITE:
        throw LiteMessageVerificationException();
    case TYPE:
        throwFileTypeInconsistencyException();
    case CAST:
        throw InvalidCastException(TXT, TXT);
    case UNREACH:
        UNREACHABLE();
    case RUNTIME:
        throw_runtime_error(TXT);
    case ALLOC:
        throw std::bad_alloc();
    case RANGE:
        throw std::out_of_range(TXT);
    default:
        throw std::exception();
    }
}
static uint64_t bits(const void* p) { return (uint64_t)p; }
static uint64_t bits(fuse_fill_dir_t p) { return (uint64_t)p; }
static uint64_t bits(uint64_t v) { return v; }
static uint64_t bits(int64_t v) { return (uint64_t)v; }
static uint64_t bits(int v) { return (uint64_t)(int64_t)v; }
static uint64_t bits(unsigned v) { return v; }
template <class... A>
static int took(const char* name, const fuse_context* ctx, A... a)
{
    ++g_calls;
    g_called = name;
    CHECK(ctx == &g_ctx, "operation ran with another context");
    uint64_t v[] = {bits(a)...};
    g_nargs = sizeof...(A);
    for (unsigned i = 0; i < g_nargs; ++i)
        g_args[i] = v[i];
    if (g_inside)
        g_inside();
    if (g_end != RC)
        raise_it();
    return g_value;
}
static uint64_t g_has = ~0ull;
enum
{
#define X(name, args, call) N_##name,
    OPS(X)
#undef X
    N_OPS
};
struct Mock final : FuseHighLevelOpsBase
{
    bool sensitive = false;
    bool allow_sensitive_logging() const override { return sensitive; }
    void initialize(fuse_conn_info*) override { ++g_calls; }
#define X(name, args, call) \
    int v##name args override { return [&](auto... x) { return took(#name, x...); } call; } \
    bool has_##name() const override { return (g_has >> N_##name) & 1; }
    OPS(X)
#undef X
    int vgetpath(const char* a, char* b, size_t n, fuse_file_info* d, const fuse_context* c) override { return took("getpath", c, a, b, n, d); }
};
struct CountHook final : FuseHook
{
    void notify_activity() override { ++g_notified; }
};
static int g_wrap;
static std::shared_ptr<FuseHighLevelOpsBase> g_root;
static fuse_operations table()
{
    auto m = std::make_shared<Mock>();
    g_wrap = (int)sym_choice(0, 4, "wrapper");
    m->sensitive = g_wrap == 4;
    g_root = m;
    if (g_wrap == 1)
        g_root = std::make_shared<AllowSensitiveLoggingFuseHighLevelOps>(m);
    else if (g_wrap == 2)
        g_root = std::make_shared<HookedFuseHighLevelOps>(m, std::make_shared<CountHook>());
    else if (g_wrap == 3)
        g_root = wrap_as_unmountable_fuse(m);
    else if (g_wrap == 4)    // all of them, in the order the mount command uses
    {
        auto h = std::make_shared<MultiFuseHook>();
        h->add_hook(std::make_shared<CountHook>());
        g_root = wrap_as_unmountable_fuse(std::make_shared<HookedFuseHighLevelOps>(m, h));
        g_root = std::make_shared<AllowSensitiveLoggingFuseHighLevelOps>(g_root);
    }
    g_ctx.private_data = g_root.get();
    return FuseHighLevelOpsBase::build_ops(g_root.get());
}
alignas(16) static char g_area[8][256];
static unsigned g_made;
static uint64_t g_in[8];
static bool g_short;
template <class T>
static T make()
{
    T v{};
    unsigned i = g_made++;
    if constexpr (std::is_pointer_v<T>)
    {
        if (i || !g_short)    // unused paths are passed as null
            v = (T)(void*)g_area[i];
    }
    else
        sym_make(&v, sizeof v, "arg");
    if constexpr (std::is_same_v<T, size_t>)
        if (g_size)
            v = g_size;
    g_in[i] = bits(v);
    return v;
}
static int want(bool ioctl)
{
    switch (g_end)
    {
    case RC:
        return g_value;
    case VFS:
    case POSIX:
        return -g_value;
    case ARG:
        return -EINVAL;
    case LONG:
        return -EFBIG;
    default:
        return -EPERM;
    }
}
template <class... A>
static void run(const char* name, int (*fn)(A...), unsigned extra)
{
    g_calls = g_notified = g_exits = 0;
    g_made = 0;
    std::tuple<A...> args{make<A>()...};
    bool io = !strcmp(name, "ioctl");
    if (io && g_wrap >= 3)
    {
        uint32_t cmd = (uint32_t)g_in[1];
        // the ioctl the mount itself answers
        if (sym_conc(cmd == OSService::get_cmd_for_query_ioctl()))
        {
            int rc = std::apply(fn, args);
            CHECK(rc == 0 && !g_calls && !g_exits, "status query not answered");
            CHECK(*(unsigned*)g_area[5] == OSService::get_magic_for_mounted_status(), "wrong status");
            sym_reach("query");
            return;
        }
        if (sym_conc(cmd == OSService::get_cmd_for_trigger_unmount_ioctl()))
        {
            int rc = std::apply(fn, args);
            CHECK(rc == 0 && !g_calls && g_exits == 1, "unmount request not honoured");
            sym_reach("unmount");
            return;
        }
    }
    int rc = 0;
    bool escaped = false;
    try
    {
        rc = std::apply(fn, args);
    }
    catch (...)
    {
        escaped = true;
    }
    CHECK(!escaped, "exception escaped from the callback");
    CHECK(g_calls == 1, "operation not run exactly once");
    CHECK(!strcmp(g_called, name), "another operation was run");
    CHECK(g_exits == 0, "unmounted");
    if (g_wrap == 2 || g_wrap == 4)
        CHECK(g_notified == 1, "activity not reported");
    CHECK(g_nargs == sizeof...(A) + extra, "wrong number of arguments");
    for (unsigned i = 0; i < sizeof...(A); ++i)
        CHECK(g_args[i] == g_in[i], "operation ran with another argument");
    if (extra)
        CHECK(g_args[g_nargs - 1] == 0, "unexpected attribute position");
    int w = want(io);
    if (io && g_wrap >= 3 && g_end == RC)
        w = (int)sym_ite(g_value == -ENOSYS, (uint32_t)-ENOTSUP, (uint32_t)g_value);
    CHECK(rc == w, "callback reports another result than the operation had");
    if (g_end != RC)
        CHECK(rc < 0, "failure reported as success");
    sym_reach(g_end == RC ? "returned" : "thrown");
}
extern "C" void h_ops()
{
    fuse_operations t = table();
    g_short = sym_fork_flag("null-path");
    g_end = (int)sym_choice(0, ENDS - 1, "ending");
    g_value = (int)sym_u32("value");
    if (g_end == VFS || g_end == POSIX)
        sym_assume(g_value >= 1 && g_value <= 4095);
    int op = (int)sym_choice(0, N_OPS, "op");
#define X(name, args, call) \
    if (op == N_##name) \
    { \
        CHECK(t.name != nullptr, "no callback for " #name); \
        run(#name, t.name, N_##name == N_getxattr || N_##name == N_setxattr ? 1 : 0); \
    }
    OPS(X)
#undef X
    if (op == N_OPS)
        run("getpath", &FuseHighLevelOpsBase::static_getpath, 0);
    g_root.reset();
}
// an operation the file system does not have is left out of the table, every other one is in it
extern "C" void h_table()
{
    // each operation alone missing or alone present: the table entries do not depend on one another
    uint64_t one = 1ull << sym_choice(0, N_OPS - 1, "op");
    g_has = sym_fork_flag("missing") ? ~one : one;
    fuse_operations t = table();
#define X(name, args, call) \
    { \
        bool has = ((g_has >> N_##name) & 1) != 0; \
        if (N_##name == N_ioctl && g_wrap >= 3) \
            has = true; \
        CHECK((t.name != nullptr) == has, "operation table wrong about " #name); \
    }
    OPS(X)
#undef X
    sym_reach("table");
    g_root.reset();
}
extern "C" void h_init()
{
    fuse_operations t = table();
    fuse_conn_info info{};
    info.capable = sym_u32("capable");
    unsigned before = info.want = sym_u32("want");
    g_calls = 0;
    void* p = t.init(&info);
    CHECK(p == g_root.get(), "initialisation returns another object than the operations");
    CHECK(g_calls == 1, "file system not initialised exactly once");
    CHECK((info.want & ~(before | info.capable)) == 0, "capability requested that the kernel does not offer");
    CHECK((before & ~info.want) == 0, "capability dropped");
    sym_reach("init");
    g_root.reset();
}

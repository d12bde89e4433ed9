// What the log says, and what it must not say.
#define TRACED
#include "C28.cpp"
#include "log_capture.h"
static bool g_odd;
void OSService::get_current_time_in_tm(struct tm* t, int* ns)
{
    memset(t, 0, sizeof *t);
    *ns = 0;
}
std::unique_ptr<const char, void (*)(const char*)> securefs::get_type_name(const std::exception&) noexcept { return {"type", [](const char*) {}}; }
using cap::log;
// a message below the level leaves no trace, any other is one whole line even when composing it fails
extern "C" void h_levels()
{
    cap::coloured() = sym_fork_flag("terminal");
    int lvl = (int)sym_choice(0, 4, "level"), n = (int)sym_param("messages", 2);
    global_logger = cap::logger((LoggingLevel)lvl);
    CHECK(global_logger->get_level() == (LoggingLevel)lvl, "level not kept");
    size_t want = 0;
    for (int i = 0; i < n; ++i)
    {
        int m = (int)sym_choice(0, 4, "message");
        static const char* T[] = {"trc", "vrb", "inf", "wrn", "err"};
        bool macro = sym_fork_flag("macro");
        size_t before = log().text.size();
        bool ran = false;
        try
        {
            if (macro)
            {
                auto arg = [&]
                {
                    ran = true;
                    return T[m];
                };
                switch (m)
                {
                case 0:
                    TRACE_LOG("<%s>", arg());
                    break;
                case 1:
                    VERBOSE_LOG("<%s>", arg());
                    break;
                case 2:
                    INFO_LOG("<%s>", arg());
                    break;
                case 3:
                    WARN_LOG("<%s>", arg());
                    break;
                default:
                    ERROR_LOG("<%s>", arg());
                }
            }
            else
            {
                bool fail = sym_fork_flag("fail");
                global_logger->log_v2((LoggingLevel)m,
                                      "func",
                                      7,
                                      absl::FunctionRef<void(FILE*)>(
                                          [&](FILE* f)
                                          {
                                              ran = true;
                                              CHECK(f == cap::fp(), "another file");
                                              if (fail)
                                                  throw std::runtime_error("composing failed");
                                              fputs(T[m], f);
                                          }));
                if (fail && ran)
                {
                    CHECK(log().text.find("composing failed", before) != std::string::npos, "failure to compose a message not reported");
                    sym_reach("failed");
                    ++want;
                    continue;
                }
            }
        }
        catch (...)
        {
            CHECK(false, "exception out of the logger");
        }
        CHECK(ran == (m >= lvl), "messages at or above the level, and only those, are composed");
        bool said = log().text.find(T[m], before) != std::string::npos;
        CHECK(said == (m >= lvl), "messages at or above the level, and only those, are printed");
        CHECK((log().text.size() != before) == (m >= lvl), "output below the level");
        want += m >= lvl;
    }
    CHECK(whole_lines(log().marks) == want, "one line for each message");
    sym_reach("levels");
    global_logger.reset();
    TRACE_LOG("nobody listens");
    ERROR_LOG("nobody listens");
    CHECK(whole_lines(log().marks) == want, "output without a logger");
}
// the contents of files and attributes and the targets of links that pass through a callback
static char g_secret[8];
static int g_slot[2];
static void secrets()
{
    for (int s : g_slot)
        if (s >= 0)
            memcpy(g_area[s], g_secret, sizeof g_secret);
}
template <class... A>
static void traced(const char* name, int (*fn)(A...), bool secret)
{
    g_slot[0] = g_slot[1] = -1;
    auto is = [&](const char* s) { return !strcmp(name, s); };
    if (is("read") || is("write") || is("readlink") || is("listxattr") || is("getpath") || is("readdir"))
        g_slot[0] = 1;
    if (is("getxattr") || is("setxattr"))
        g_slot[0] = 2;
    if (is("ioctl"))
    {
        g_slot[0] = 2;
        g_slot[1] = 5;
    }
    for (int i = 0; i < 8; ++i)
        g_area[i][0] = 0;
    memset(g_area[0], 'p', 3);
    bool hidden = !g_root->allow_sensitive_logging();
    bool out = is("read") || is("readlink") || is("listxattr") || is("getxattr") || is("getpath") || is("readdir");
    g_made = 0;
    g_calls = 0;
    std::tuple<A...> args{make<A>()...};
    g_inside = nullptr;
    int rc = 0;
    std::string first;
    std::vector<uint64_t> numbers;
    int runs = hidden && (g_slot[0] >= 0) ? 2 : 1;
    for (int r = 0; r < runs; ++r)
    {
        std::string c = sym_bytes(sizeof g_secret, "content");
        memcpy(g_secret, c.data(), c.size());
        log().clear();
        if (out)
            g_inside = secrets;
        else
            secrets();
        try
        {
            rc = std::apply(fn, args);
        }
        catch (...)
        {
            CHECK(false, "exception escaped from the callback");
        }
        if (r)
        {
            CHECK(model::same(log().text, first), "the log depends on contents");
            CHECK(log().numbers.size() == numbers.size(), "the log depends on contents");
            for (size_t i = 0; i < numbers.size(); ++i)
                CHECK(log().numbers[i] == numbers[i], "the log depends on contents");
            sym_reach("hidden");
        }
        first = log().text;
        numbers = log().numbers;
    }
    CHECK(g_calls == runs, "operation not run exactly once");
    int w = want(false);
    if (is("ioctl") && g_wrap >= 3 && g_end == RC)
        w = (int)sym_ite(g_value == -ENOSYS, (uint32_t)-ENOTSUP, (uint32_t)g_value);
    CHECK(rc == w, "callback reports another result than the operation had");
    // which lines there are
    size_t n = whole_lines(log().marks);
    int lvl = global_logger ? (int)global_logger->get_level() : 5;
    bool quiet = g_end == RC || g_end == VFS;
    if (is("getxattr") && !quiet)
        quiet = g_end == POSIX && sym_conc(g_value == ENODATA);
    if (!quiet && g_end == POSIX && lvl > 1)
        quiet = sym_conc(g_value == EEXIST);
    size_t lines = lvl == 0 ? 2 : lvl <= 4 && !quiet ? 1 : 0;
    CHECK(n == lines, "not one line for the start and one for the end at the most detailed level, one for an unexpected failure at the others");
    if (lines && !quiet)
        sym_reach("failed");
    if (!lines)
        sym_reach("silent");
    if (lines == 2)
        sym_reach("traced");
}
extern "C" void h_calls()
{
    fuse_operations t = table();
    g_size = 4;
    g_end = (int)sym_choice(0, ENDS - 1, "ending");
    g_value = (int)sym_u32("value");
    if (g_end == VFS || g_end == POSIX)
        sym_assume(g_value >= 1 && g_value <= 4095);
    int lvl = (int)sym_choice(0, 5, "level");
    global_logger.reset();
    if (lvl < 5)
        global_logger = cap::logger((LoggingLevel)lvl);
    int op = (int)sym_choice(0, N_OPS, "op");
    if (op == N_ioctl && g_wrap >= 3)
        return;
#define X(name, args, call) \
    if (op == N_##name) \
        traced(#name, t.name, true);
    OPS(X)
#undef X
    if (op == N_OPS)
        traced("getpath", &FuseHighLevelOpsBase::static_getpath, true);
    global_logger.reset();
    g_root.reset();
}

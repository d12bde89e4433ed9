// Passwords, keys and contents against everything the program logs, through its commands.
#define REAL_CONSOLE
#include "cli.h"
#include "log_capture.h"
static fuse_context g_ctx;
extern "C" fuse_context* fuse_get_context() { return &g_ctx; }
extern "C" struct tm* gmtime_r(const time_t*, struct tm* t) noexcept
{
    memset(t, 0, sizeof *t);
    return t;
}
namespace
{
using str = std::string;
// secret bytes are not ASCII, everything that may be logged is
str secret(size_t n, const char* tag)
{
    str s = sym_bytes(n, tag);
    for (unsigned char c : s)
        sym_assume(c >= 0x80);
    return s;
}
std::vector<str> keys()
{
    auto& p = cli::printed();
    std::vector<str> v;
    if (p.has_lite_format_params())
    {
        auto& l = p.lite_format_params();
        v = {l.content_key(), l.name_key(), l.padding_key(), l.xattr_key()};
    }
    if (p.has_full_format_params())
        v = {p.full_format_params().master_key()};
    return v;
}
void clean(const std::vector<str>& k)
{
    auto& t = cap::log().text;
    bool ok = true;
    for (unsigned char c : t)
        ok = ok & (c < 0x80);
    CHECK(ok, "a secret in the log");
    for (uint64_t v : cap::log().numbers)
        CHECK(!sym_is_symbolic(v), "a number computed from a secret in the log");
    // nor what is derived from the keys
    for (auto& e : symc::st().fn)
        if (e.ct.size() >= 4)
            CHECK(t.find(e.ct.substr(0, 4)) == str::npos, "a derived key in the log");
    str up = t;
    for (char& c : up)
        if (c >= 'A' && c <= 'Z')
            c += 32;
    for (auto& x : k)
        if (!x.empty())
        {
            static const char H[] = "0123456789abcdef";
            str h;
            for (unsigned char c : x.substr(0, 8))
            {
                h.push_back(H[c >> 4]);
                h.push_back(H[c & 15]);
            }
            CHECK(up.find(h) == str::npos, "a key in the log");
        }
}
}    // namespace
extern "C" void h_secrets()
{
    using namespace securefs;
    static unsigned char next = 0x80;
    symc::st().rng = [](void* q, size_t n)
    {
        auto p = (unsigned char*)q;
        while (n--)
        {
            *p++ = next;
            next = next == 0xfb ? 0x80 : next + 1;
        }
    };
    bool full = sym_choice(0, 1, "full");
    str pw = secret(3, "password"), wrong = secret(4, "wrong");
    bool typed = sym_choice(0, 1, "typed");
    auto with = [&](std::vector<str> a, const str& p, const char* opt, str& in)
    {
        if (typed)
            in += p + "\n";
        else
        {
            a.push_back(opt);
            a.push_back(p);
        }
        return a;
    };
    int lvl = (int)sym_choice(0, 2, "level");
    auto listen = [&] { global_logger = cap::logger((LoggingLevel)lvl); };
    listen();
    str in;
    auto a = with({"create", "/r", "--format", full ? "full" : "lite", "--max-padding", "5"}, pw, "--pass", in);
    CHECK(cli::run(a, in) == 0, "create");
    clean({});
    in.clear();
    a = with({"info", "/r", "--unmask"}, pw, "--pass", in);
    CHECK(cli::run(a, in) == 0, "info");
    auto k = keys();
    CHECK(!k.empty() && !k[0].empty(), "keys");
    clean(k);
    in.clear();
    a = with({"info", "/r"}, pw, "--pass", in);
    CHECK(cli::run(a, in) == 0, "info");
    for (auto& x : keys())
        CHECK(x.empty(), "keys are printed although nobody asked for them");
    in.clear();
    a = with({"info", "/r"}, wrong, "--pass", in);
    CHECK(cli::run(a, in) != 0, "wrong password accepted");
    clean(k);
    sym_reach("wrong");
    mkdirat(AT_FDCWD, "/m", 0755);
    str data = secret(5, "content"), attr = secret(3, "attribute");
    bool trouble = sym_choice(0, 1, "trouble");
    cli::mounted() = [&](int, char**, fuse_operations* op, void* d)
    {
        g_ctx = {};
        g_ctx.private_data = d;
        fuse_conn_info ci{};
        op->init(&ci);
        clean(k);
        CHECK((int)global_logger->get_level() == lvl, "level of the log");
        cap::log().clear();
        fuse_file_info fi{};
        fi.flags = O_RDWR | O_CREAT | O_EXCL;
        CHECK(op->create("/f", 0640, &fi) == 0, "create");
        CHECK(op->write("/f", data.data(), data.size(), 0, &fi) == (int)data.size(), "write");
        char b[16] = {};
        CHECK(op->read("/f", b, 16, 0, &fi) == (int)data.size() && model::same(str(b, data.size()), data), "read");
        CHECK(op->setxattr("/f", "user.k", attr.data(), attr.size(), 0) == 0, "setxattr");
        CHECK(op->getxattr("/f", "user.k", b, 16) == (int)attr.size(), "getxattr");
        CHECK(op->listxattr("/f", b, 16) > 0, "listxattr");
        fuse_stat st{};
        CHECK(op->getattr("/f", &st) == 0 && st.st_size == (long)data.size(), "getattr");
        CHECK(op->release("/f", &fi) == 0, "release");
        clean(k);
        size_t lines = whole_lines(cap::log().marks);
        CHECK(lvl ? lines == 0 : lines >= 16, "calls that succeed are logged at the most detailed level only");
        if (trouble)
        {
            // the stored file is damaged: the failure is reported without what is in it
            std::function<void(const mos::InodeP&)> hurt = [&](const mos::InodeP& n)
            {
                if (n->dir())
                    for (auto& x : n->kids)
                        hurt(x.second);
                else if (n->d.size() > 20 && n != cli::file("/r/.config.pb"))
                    n->d[n->d.size() - 1] = 0x85;
            };
            hurt(cli::file("/r"));
            size_t before = cap::log().text.size();
            fi = {};
            int rc = op->open("/f", &fi);
            if (rc == 0)
            {
                op->read("/f", b, 16, 0, &fi);
                op->release("/f", &fi);
            }
            if (cap::log().text.size() != before)
                sym_reach("trouble");
        }
        else
            CHECK(op->unlink("/f") == 0, "unlink");
        op->destroy(d);
        return 0;
    };
    in.clear();
    std::vector<str> m{"mount", "/r", "/m", "--log", "/log"};
    if (lvl < 2)
        m.push_back(lvl ? "--verbose" : "--trace");
    cli::run(with(m, pw, "--pass", in), in);
    cli::mounted() = nullptr;
    CHECK(cap::log().any, "nothing is logged");
    clean(k);
    whole_lines(cap::log().marks);
    sym_reach(lvl == 0 ? "traced" : "mounted");
    global_logger.reset();
}

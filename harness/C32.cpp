// The commands that make and change the configuration of a repository.
#include "cli.h"
#include "lite_format.h"
namespace
{
const char* const KEY[] = {"", "/k1", "/k2"};
struct Secret
{
    std::string pass;    // empty: none given
    int key = 0;
    bool ask = false, typed = false;
    bool has_pass() const { return !pass.empty(); }
};
// two passwords of one length, any bytes
Secret secret(const char* name, int keys, bool typing)
{
    Secret s;
    s.key = (int)sym_choice(0, keys, "keyfile");
    bool pass = !s.key || sym_choice(0, 1, "with password");
    if (pass)
    {
        s.pass = sym_bytes(2, name);
        for (unsigned char c : s.pass)
            sym_assume(c != 0 && c != '\n' && c != '\r' && c != '-');
        s.typed = typing && sym_choice(0, 1, "typed");
    }
    s.ask = s.key && s.typed;
    return s;
}
void give(std::vector<std::string>& a, std::string& input, const Secret& s, const char* pass, const char* key, const char* ask)
{
    if (s.has_pass() && !s.typed)
    {
        a.push_back(pass);
        a.push_back(s.pass);
    }
    if (s.typed)
        input += s.pass + "\n";
    if (s.key)
    {
        a.push_back(key);
        a.push_back(KEY[s.key]);
    }
    if (s.ask)
        a.push_back(ask);
}
// same meaning: a key file alone goes with a fixed password
bool opens(const Secret& a, const Secret& b)
{
    return a.key == b.key && same(a.has_pass() ? a.pass : " ", b.has_pass() ? b.pass : " ");
}
int info(const Secret& s, const char* config, bool unmask = true)
{
    std::vector<std::string> a{"info", "/r"};
    std::string in;
    give(a, in, s, "--pass", "--keyfile", "--askpass");
    if (unmask)
        a.push_back("--unmask");
    if (config)
    {
        a.push_back("--config");
        a.push_back(config);
    }
    cli::prints() = 0;
    int rc = cli::run(a, in);
    CHECK(cli::prints() == (rc == 0), "parameters are printed exactly when the command succeeds");
    return rc;
}
void files()
{
    cli::put("/k1", "key file number one");
    cli::put("/k2", "key file number two");
}
void closed() { CHECK(ks::k().opened == ks::k().closed, "a file is left open"); }
std::vector<std::string> names(const char* dir)
{
    std::vector<std::string> r;
    for (auto& x : cli::file(dir)->kids)
        r.push_back(x.first);
    return r;
}
}    // namespace
// creation with every kind of options; the right secret and no other opens it
extern "C" void h_create()
{
    files();
    static const char* const FORMAT[] = {nullptr, "lite", "LITE", "4", "full", "Full", "2", "1", "other"};
    int format = (int)sym_choice(0, 8, "format");
    bool lite = format <= 3, full = format >= 4 && format <= 6;
    int conf = (int)sym_choice(0, 1, "config");
    int old = (int)sym_choice(0, 2, "existing");
    const char* path = conf ? "/elsewhere" : nullptr;
    std::string where = conf ? "/elsewhere" : "/r/.config.pb";
    if (old)
        mkdirat(AT_FDCWD, "/r", 0755);
    if (old == 2)
        cli::put(where, "precious");
    Secret s = secret("password", (int)sym_param("keys", 1), true);
    std::vector<std::string> a{"create", "/r"};
    std::string in;
    give(a, in, s, "--pass", "--keyfile", "--askpass");
    if (FORMAT[format])
    {
        a.push_back("--format");
        a.push_back(FORMAT[format]);
    }
    if (path)
    {
        a.push_back("--config");
        a.push_back(path);
    }
    int opts = (int)sym_choice(0, 3, "options");
    bool fold = false, norm = false, wrong = false;
    unsigned iv = 12, block = 4096, pad = 0, threshold = 128;
    std::string suffix = ".ll";
    if (opts & 1)
    {
        for (auto x : {"--iv-size", "16", "--block-size", "8192", "--max-padding", "77", "--long-name-threshold", "100", "--long-name-suffix", ".long"})
            a.push_back(x);
        iv = 16, block = 8192, pad = 77, threshold = 100, suffix = ".long";
        a.push_back("--case");
        a.push_back("insensitive");
        fold = true;
    }
    if (opts & 2)
    {
        for (auto x : {"--uninorm", "insensitive", "--argon2-t", "2"})
            a.push_back(x);
        norm = true;
    }
    int rc = cli::run(a, in);
    closed();
    if (old == 2 || !(lite || full))
    {
        CHECK(rc != 0, "refused");
        CHECK(old == 2 ? same(cli::content(where), "precious") : !cli::file(where), "a refused creation writes the configuration");
        sym_reach("refused");
        return;
    }
    CHECK(rc == 0, "a repository can be created");
    std::string stored = cli::content(where);
    CHECK(info(s, path) == 0, "the secret of the creation opens the repository");
    closed();
    auto p = cli::printed();
    CHECK(p.size_params().iv_size() == iv && p.size_params().block_size() == block && p.size_params().max_padding_size() == pad, "sizes");
    CHECK(p.has_lite_format_params() == lite && p.has_full_format_params() == full, "format");
    std::vector<std::string> keys;
    if (lite)
    {
        auto& l = p.lite_format_params();
        keys = {l.name_key(), l.content_key(), l.xattr_key(), l.padding_key()};
        CHECK(l.long_name_threshold() == threshold && same(l.long_name_suffix(), suffix), "long names");
    }
    else
    {
        keys = {p.full_format_params().master_key()};
        CHECK(p.full_format_params().case_insensitive() == fold && p.full_format_params().unicode_normalization_agnostic() == norm
                  && !p.full_format_params().legacy_file_table_io(),
              "comparison of names");
    }
    for (size_t i = 0; i < keys.size(); ++i)
    {
        CHECK(keys[i].size() == 32, "length of a key");
        CHECK(stored.find(keys[i]) == std::string::npos, "a key is stored in the clear");
        for (size_t j = 0; j < i; ++j)
            CHECK(keys[i] != keys[j], "two keys are the same");
    }
    CHECK(info(s, path, false) == 0, "info");
    auto q = cli::printed();
    auto& l = q.lite_format_params();
    CHECK(l.name_key().empty() && l.content_key().empty() && l.xattr_key().empty() && l.padding_key().empty()
              && q.full_format_params().master_key().empty(),
          "keys are printed without being asked for");
    Secret t = secret("other password", (int)sym_param("keys", 1), false);
    bool open = info(t, path) == 0;
    CHECK(open == opens(s, t), "opened with another secret, or not opened with an equal one");
    if (open)
        CHECK(cli::same_params(p, cli::printed()), "parameters");
    CHECK(same(cli::content(where), stored), "reading changes the configuration");
    sym_reach(open ? "same" : "other");
    sym_reach(lite ? "lite" : "full");
}
// changing the password: completed, failed at any system call, or interrupted by a crash at any of them
namespace
{
enum
{
    DONE,
    FAIL,
    SHORT,
    CRASH
};
std::vector<std::string> create_args(const Secret& s, bool lite)
{
    std::vector<std::string> a{"create", "/r", "--format", lite ? "lite" : "full"};
    std::string in;
    give(a, in, s, "--pass", "--keyfile", "--askpass");
    return a;
}
// sets what goes wrong; the number of the call is within those of a run without faults
void trouble(int how, long calls)
{
    auto& k = ks::k();
    if (how == DONE)
        return;
    static const int ERR[] = {EIO, ENOSPC, EACCES};
    long at = (long)sym_choice(0, calls, "call") + k.calls;
    (how == FAIL ? k.fail_at : how == SHORT ? k.short_at : k.crash_at) = at;
    k.fail_with = ERR[at % 3];
}
}    // namespace
extern "C" void h_change()
{
    files();
    int what = (int)sym_choice(sym_param("what0", 0), sym_param("what1", 2), "command");    // chpass, migrate, create
    bool lite = what == 1 || sym_choice(0, 1, "format");
    Secret s;
    s.pass = "old";
    s.key = (int)sym_choice(0, 1, "keyfile");
    Secret n;
    n.pass = "new";
    n.key = what ? s.key : (int)sym_choice(0, 2, "new keyfile");
    if (what == 0 && n.key && sym_choice(0, 1, "key only"))
        n.pass.clear();
    DecryptedSecurefsParams p;
    std::string stored;
    if (what < 2)
    {
        auto a = create_args(s, lite);
        if (what == 1)
        {
            a.push_back("--long-name-threshold");
            a.push_back("0");
        }
        CHECK(cli::run(a) == 0, "create");
        CHECK(info(s, nullptr) == 0, "info");
        p = cli::printed();
        stored = cli::content("/r/.config.pb");
        if (what == 0 && sym_choice(0, 1, "old name"))
        {
            // a configuration under its old name
            CHECK(renameat(AT_FDCWD, "/r/.config.pb", AT_FDCWD, "/r/.securefs.json") == 0, "rename");
        }
        ks::k().synced.clear();
    }
    if (what)
        n = s;
    auto before = what < 2 ? names("/r") : std::vector<std::string>();
    int how = (int)sym_choice(DONE, CRASH, "how");
    trouble(how, sym_param("calls", what == 2 ? 8 : 30));
    std::vector<std::string> a;
    std::string in;
    if (what == 0)
    {
        a = {"chpass", "/r"};
        give(a, in, s, "--oldpass", "--oldkeyfile", "--askoldpass");
        give(a, in, n, "--newpass", "--newkeyfile", "--asknewpass");
    }
    else if (what == 1)
    {
        a = {"migrate-long-name", "/r", "--long-name-suffix", ".x"};
        give(a, in, s, "--pass", "--keyfile", "--askpass");
    }
    else
        a = create_args(n, lite);
    int rc = cli::run(a, in);
    closed();
    auto& k = ks::k();
    bool hit = how == DONE || (how == FAIL && k.failed) || (how == SHORT && k.shortened) || how == CRASH;
    if (!hit)
        sym_assume(false);
    if (how == CRASH)
    {
        CHECK(rc == 0, "succeeds");
        if (!ks::restart())
        {
            // crash after the command is over
            k.crash_at = k.calls;
            ks::enter();
            ks::restart();
            sym_reach("crash after");
            CHECK(info(n, nullptr) == 0, "after a crash the completed command is forgotten");
            return;
        }
    }
    k.fail_at = k.short_at = k.crash_at = -1;
    if (what == 2)
    {
        if (how == CRASH)
        {
            sym_reach("crash");
            return;    // the creation may have to be done again
        }
        if (rc == 0)
            CHECK(info(n, nullptr) == 0, "the created repository opens");
        else
        {
            CHECK(!cli::file("/r/.config.pb"), "a failed creation leaves a configuration that cannot be opened");
            sym_reach("create failed");
        }
        return;
    }
    bool now_old = info(s, nullptr) == 0, old_is = now_old && cli::same_params(cli::printed(), p);
    bool now_new = info(n, nullptr) == 0;
    auto q = cli::printed();
    if (what == 1 && now_new)
    {
        bool changed = q.lite_format_params().long_name_threshold() > 0;
        CHECK(how == CRASH || changed == (rc == 0), "the parameters are changed exactly when the command succeeds");
        CHECK(!changed || q.lite_format_params().long_name_suffix() == ".x", "suffix");
        q.mutable_lite_format_params()->clear_long_name_threshold();
        q.mutable_lite_format_params()->set_long_name_suffix(p.lite_format_params().long_name_suffix());
        auto pp = p;
        pp.mutable_lite_format_params()->clear_long_name_threshold();
        CHECK(cli::same_params(q, pp), "other parameters change");
        sym_reach(changed ? "migrated" : "not migrated");
        return;
    }
    bool new_is = now_new && cli::same_params(q, p);
    CHECK(now_old == old_is && now_new == new_is, "the parameters of the repository change");
    CHECK(old_is || new_is, "the repository can no longer be opened");
    if (what == 1)
        return;
    CHECK(!(old_is && new_is), "two secrets open the repository");
    if (how != CRASH)
    {
        CHECK(new_is == (rc == 0), "the secret is changed exactly when the command succeeds");
        CHECK(names("/r") == before, "files are left behind");
        sym_reach(rc ? "failed" : "changed");
    }
    else
        sym_reach("crash");
}
// a repository without long names keeps showing every name after the migration
extern "C" void h_migrate()
{
    using namespace lite_format;
    Secret s;
    s.pass = "p";
    auto a = create_args(s, true);
    a.push_back("--long-name-threshold");
    a.push_back("0");
    CHECK(cli::run(a) == 0 && info(s, nullptr) == 0, "create");
    auto translator = [&](const DecryptedSecurefsParams& p)
    {
        NameNormalizationFlags f{};
        f.long_name_threshold = p.lite_format_params().long_name_threshold();
        f.long_name_suffix = p.lite_format_params().long_name_suffix();
        auto& k = p.lite_format_params().name_key();
        return make_name_translator(f, StrongType<key_type, tNameMasterKey>(key_type((const byte*)k.data(), k.size())));
    };
    size_t len = (size_t)sym_choice(sym_param("from", 120), sym_param("to", 143), "length"), len2 = sym_choice(0, 1, "second") ? 143 : 5;
    int nested = (int)sym_choice(0, 1, "nested");
    std::string x(len, 'x'), y(len2, 'y');
    auto t = translator(cli::printed());
    auto stored = [&](const std::string& n)
    {
        auto r = t->encrypt_full_path("/" + n, nullptr);
        return r.substr(r.rfind('/') + 1);
    };
    std::string dir = "/r/";
    if (nested)
    {
        dir += stored("d") + "/";
        CHECK(mkdirat(AT_FDCWD, dir.c_str(), 0755) == 0, "mkdir");
    }
    std::string ex = stored(x), ey = stored(y);
    sym_assume(ex.size() <= 255 && ey.size() <= 255);
    cli::put(dir + ex, "1");
    cli::put("/r/" + ey, "2");
    bool link = sym_choice(0, 1, "link");
    if (link)
        CHECK(symlinkat("t", AT_FDCWD, (dir + stored("l")).c_str()) == 0, "symlink");
    int rc = cli::run({"migrate-long-name", "/r", "--pass", "p"});
    CHECK(link ? rc != 0 : rc == 0, "result");
    CHECK(info(s, nullptr) == 0, "info");
    CHECK((cli::printed().lite_format_params().long_name_threshold() > 0) == (rc == 0), "migrated");
    t = translator(cli::printed());
    CHECK(same(stored(x), ex) && same(stored(y), ey), "a name is no longer found after the migration");
    sym_reach(rc ? "refused" : "migrated");
}

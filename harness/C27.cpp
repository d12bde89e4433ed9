// Listing a directory of the lite format: any sequence of genuine, foreign, damaged and internal entries.
#include "lite_fs.h"
#include "sqlite_model.h"
static const unsigned LIMIT = 3;
enum Sort
{
    SHORT,
    LONG,
    NOROW,       // shortened name without a row
    BADROW,      // one character of the recorded name changed
    EMPTYROW,
    SUFFIXROW,    // the recorded name looks like a shortened one
    PLAINNAME,
    GARBAGE,    // decodes, does not authenticate
    TINY,
    DOT,
    CHANGED,    // one character of a stored name changed
    CUT,        // a stored name cut short
    SORTS
};
struct Seen
{
    std::vector<std::pair<std::string, unsigned>> v;
    int stop_after = -1, rc = 0;
};
static int fill(void* b, const char* n, const fuse_stat* st, fuse_off_t)
{
    auto s = (Seen*)b;
    if (s->stop_after == 0)
        return s->rc;
    if (s->stop_after > 0)
        --s->stop_after;
    s->v.push_back({n, st ? st->st_mode & S_IFMT : 0});
    return 0;
}
struct World
{
    int kind;
    LiteFs f;
    std::string suffix;
    mos::InodeP d;
    std::shared_ptr<msql::Rows> rows;
    std::vector<std::pair<std::string, unsigned>> want;
    unsigned next = 0;
    World(int k, const char* sfx) : kind(k), f(k, LIMIT, sfx), suffix(*sfx ? sfx : "...")
    {
        d = mos::fs().root;
        want.push_back({".", S_IFDIR});
        want.push_back({"..", S_IFDIR});
    }
    void table()
    {
        if (rows || kind == PLAIN)
            return;
        auto n = mos::add(d, ".long_names.db", S_IFREG | 0644);
        rows = msql::rows_of(n);
        rows->table = true;
    }
    std::string stored(const std::string& plain, std::string* full)
    {
        std::string e = f.names->encrypt_full_path("/" + plain, full);
        return e.substr(e.rfind('/') + 1);
    }
    // the character at a chosen place replaced by any other
    std::string change(std::string s)
    {
        size_t at[] = {0, s.size() / 2, s.size() - 1};
        size_t i = pick(at, "at");
        char c = (char)sym_u8("char");
        sym_assume((c != s[i]) & (c != 0) & (c != '/') & (c != '.'));
        // neither upper and lower case nor the unused bits of the last character make a difference
        if (kind != PLAIN)
        {
            std::string a, b;
            base32_decode(s.data(), s.size(), a);
            s[i] = c;
            try
            {
                base32_decode(s.data(), s.size(), b);
                sym_assume(!(a == b));
            }
            catch (const ExceptionBase&)
            {
            }
        }
        s[i] = c;
        return s;
    }
    void add(int sort)
    {
        unsigned type = sym_choice(0, 1, "dir") ? S_IFDIR : S_IFREG;
        char tag = (char)('p' + next++);
        std::string plain, name, full;
        switch (sort)
        {
        case SHORT:
        case CHANGED:
        case CUT:
            plain = std::string(1, tag) + "x";
            name = stored(plain, &full);
            if (sort == CHANGED)
                name = change(name);
            else if (sort == CUT)
                name.resize(pick2(name.size()));
            if (sort == SHORT || kind == PLAIN)
                want.push_back({kind == PLAIN ? name : plain, type});
            break;
        case LONG:
        case NOROW:
        case BADROW:
        case EMPTYROW:
        case SUFFIXROW:
            plain = std::string(1, tag) + "xyz";
            name = stored(plain, &full);
            if (kind == MODERN && sort != NOROW)
            {
                table();
                rows->v.push_back({name, sort == LONG ? full : sort == BADROW ? change(full) : sort == EMPTYROW ? "" : full + suffix});
            }
            if (sort == LONG || kind != MODERN)
                want.push_back({kind == PLAIN ? name : plain, type});
            break;
        case PLAINNAME:
            name = std::string("READ-ME_") + tag;
            break;
        case GARBAGE:
            name = std::string(40, 'a') + tag;
            break;
        case TINY:
            name = std::string("aa") + tag;
            break;
        case DOT:
            name = std::string(".x") + tag;
            break;
        }
        if (plain.empty() && kind == PLAIN)
            want.push_back({name, type});
        mos::add(d, name, type | 0755);
    }
    size_t pick2(size_t n)
    {
        size_t k[] = {1, n > 20 ? size_t(20) : size_t(1), n - 1};
        return pick(k, "cut");
    }
    void judge(const Seen& s)
    {
        std::vector<char> used(s.v.size(), 0);
        for (auto& w : want)
        {
            size_t i = 0;
            while (i < s.v.size() && !(!used[i] && s.v[i].first == w.first))
                ++i;
            CHECK(i < s.v.size(), "a genuine entry is not listed");
            used[i] = 1;
            CHECK(s.v[i].second == w.second, "an entry is listed with a wrong type");
        }
        CHECK(s.v.size() == want.size(), "something is listed that is not a genuine entry");
    }
    int list(fuse_file_info& fi, Seen& s)
    {
        return LiteFs::rc([&] { return f.o->vreaddir("/", &s, &fill, 0, &fi, &f.ctx); });
    }
};
static void entries(World& w, unsigned n)
{
    for (unsigned i = 0; i < n; ++i)
        w.add((int)sym_choice(0, SORTS - 1, "sort"));
}
extern "C" void h_list()
{
    int kind = (int)sym_choice(0, KINDS - 1, "kind");
    World w(kind, kind == MODERN && sym_choice(0, 1, "suffix") ? ".ln" : "");
    if (kind == MODERN && sym_choice(0, 1, "table"))
        w.table();
    unsigned n = (unsigned)sym_choice(0, sym_param("n", 2), "n");
    entries(w, n);
    fuse_file_info fi{};
    CHECK(LiteFs::rc([&] { return w.f.o->vopendir("/", &fi, &w.f.ctx); }) == 0, "directory not opened");
    Seen s;
    CHECK(w.list(fi, s) == 0, "directory not listed");
    w.judge(s);
    sym_reach(w.want.size() > 2 + n ? "?" : w.want.size() == 2 + n ? "all" : "omitted");
    if (sym_param("again", 1))
    {
        w.add(SHORT);
        Seen t;
        CHECK(w.list(fi, t) == 0, "directory not listed again");
        w.judge(t);
        sym_reach("again");
    }
    CHECK(LiteFs::rc([&] { return w.f.o->vreleasedir("/", &fi, &w.f.ctx); }) == 0, "directory not closed");
    CHECK(msql::ctl().open == 0, "a database is left open");
}
// the receiver of the entries refuses one
extern "C" void h_refused()
{
    int kind = (int)sym_choice(0, KINDS - 1, "kind");
    World w(kind, "");
    entries(w, 1);
    w.add(SHORT);
    fuse_file_info fi{};
    CHECK(LiteFs::rc([&] { return w.f.o->vopendir("/", &fi, &w.f.ctx); }) == 0, "directory not opened");
    Seen s;
    s.stop_after = (int)sym_choice(0, 4, "after");
    int e = (int)sym_range(1, 200, "errno");
    s.rc = sym_fork_flag("negative") ? -e : e;
    unsigned after = s.stop_after;
    int rc = w.list(fi, s);
    if (after < w.want.size())
    {
        CHECK(rc == -e, "the refusal is not reported");
        CHECK(s.v.size() == after, "listing goes on after a refusal");
        sym_reach("refused");
    }
    else
    {
        CHECK(rc == 0, "a complete listing fails");
        w.judge(s);
        sym_reach("complete");
    }
    Seen t;
    CHECK(w.list(fi, t) == 0, "directory not listed again");
    w.judge(t);
    w.f.o->vreleasedir("/", &fi, &w.f.ctx);
}

// many entries
extern "C" void h_many()
{
    int kind = (int)sym_choice(0, KINDS - 1, "kind");
    World w(kind, "");
    static const unsigned N[] = {20, 70, 130};
    unsigned n = pick(N, "n");
    char c = (char)sym_u8("char");
    sym_assume((c != 0) & (c != '/') & (c != '.') & ((c < 'a') | (c > 'z')));
    for (unsigned i = 0; i < n; ++i)
    {
        std::string full, plain(i % 5 == 1 ? 100 : 1 + i % 4, 'a');
        plain += std::to_string(i);
        if (i + 1 == n)
            plain[0] = c;
        std::string name = w.stored(plain, &full);
        unsigned type = i % 3 ? S_IFREG : S_IFDIR;
        if (kind == MODERN && plain.size() > LIMIT)
        {
            w.table();
            w.rows->v.push_back({name, full});
        }
        mos::add(w.d, name, type | 0755);
        w.want.push_back({kind == PLAIN ? name : plain, type});
        if (i % 4 == 0)
        {
            mos::add(w.d, kind == PLAIN ? "." + plain : std::string(40, 'a') + plain, type | 0755);
            if (kind == PLAIN)
                w.want.push_back({"." + plain, type});
        }
    }
    fuse_file_info fi{};
    CHECK(LiteFs::rc([&] { return w.f.o->vopendir("/", &fi, &w.f.ctx); }) == 0, "directory not opened");
    for (int i = 0; i < 2; ++i)
    {
        Seen s;
        CHECK(w.list(fi, s) == 0, "directory not listed");
        w.judge(s);
    }
    w.f.o->vreleasedir("/", &fi, &w.f.ctx);
    sym_reach("many");
}

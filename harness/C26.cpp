// Tables of long names: the namespace operations of the lite format on the in-memory operating system and database.
#include "lite_fs.h"
#include "sqlite_model.h"
#include "params.pb.h"
#include <set>
static const unsigned LIMIT = 3;
// names of up to three characters are short
static const char* const PATHS[] = {"/abc", "/abcd", "/abce", "/d/abc", "/d/abcd", "/d/abce", "/Dirr/abcd", "/Dirr/abc", "/Dirr", "/d", "/Dirr/sub1/abcd", "/Dirr/sub1"};
enum
{
    N = 12
};
enum Kind
{
    NONE,
    FILE_,
    DIR_,
    LINK_
};
struct Node
{
    Kind kind;
    int ino;
};
using Tree = std::map<std::string, Node>;    // what is there, by plain path
static std::string parent(const std::string& p) { return p.substr(0, p.rfind('/')); }
static std::string last(const std::string& p) { return p.substr(p.rfind('/') + 1); }
static bool below(const std::string& p, const std::string& d) { return p.size() > d.size() && p.compare(0, d.size(), d) == 0 && p[d.size()] == '/'; }
static bool has_kids(const Tree& t, const std::string& d)
{
    for (auto& e : t)
        if (below(e.first, d))
            return true;
    return false;
}
static Kind at(const Tree& t, const std::string& p)
{
    auto i = t.find(p);
    return i == t.end() ? NONE : i->second.kind;
}
static bool has_dir(const Tree& t, const std::string& p) { return parent(p).empty() || at(t, parent(p)) == DIR_; }
// compares one stored directory with the reference, and its table with what it stores
static void judge_dir(LiteFs& f, const Tree& t, const mos::InodeP& d, const std::string& plain, const std::string& suffix)
{
    std::map<std::string, std::string> stored;    // stored name -> plain name
    for (auto& e : t)
        if (parent(e.first) == plain)
        {
            std::string enc = f.names->encrypt_full_path(e.first, nullptr);
            stored[enc.substr(enc.rfind('/') + 1)] = last(e.first);
        }
    std::shared_ptr<msql::Rows> rows;
    size_t n = 0;
    for (auto& k : d->kids)
    {
        if (k.first == ".long_names.db")
        {
            rows = msql::rows_of(k.second);
            continue;
        }
        auto i = stored.find(k.first);
        CHECK(i != stored.end(), "an entry is stored that should not be there");
        ++n;
        Kind want = at(t, plain + "/" + i->second);
        CHECK(k.second->dir() == (want == DIR_), "an entry has the wrong kind");
        CHECK(((k.second->mode & S_IFMT) == S_IFLNK) == (want == LINK_), "an entry has the wrong kind");
        if (want == DIR_)
            judge_dir(f, t, k.second, plain + "/" + i->second, suffix);
    }
    CHECK(n == stored.size(), "an entry is missing");
    size_t longs = 0;
    for (auto& s : stored)
        if (s.second.size() > LIMIT)
        {
            ++longs;
            CHECK(s.first.size() > suffix.size() && s.first.compare(s.first.size() - suffix.size(), suffix.size(), suffix) == 0, "a long name is stored without the suffix");
            CHECK(rows && rows->table, "a long name is stored without a table");
            size_t i = msql::find(*rows, s.first);
            CHECK(i < rows->v.size(), "a stored long name is not in the table");
            auto dec = f.names->decrypt_path_component(rows->v[i].second);
            CHECK(dec.index() == 2 && std::get<2>(dec) == s.second, "the table records another name");
        }
    CHECK(!rows || rows->v.size() == longs, "the table records a name that is not stored");
}
static void judge(LiteFs& f, const Tree& t, const std::string& suffix)
{
    judge_dir(f, t, mos::fs().root, "", suffix);
    CHECK(msql::ctl().open == 0, "a database is left open");
    CHECK(mos::fs().opened == mos::fs().closed, "a file is left open");
}
// the names a listing shows
static std::set<std::string> listing(LiteFs& f, const std::string& dir)
{
    std::set<std::string> r;
    fuse_file_info fi{};
    CHECK(LiteFs::rc([&] { return f.o->vopendir(dir.c_str(), &fi, &f.ctx); }) == 0, "directory cannot be opened");
    auto fill = [](void* b, const char* n, const fuse_stat*, fuse_off_t) -> int
    {
        CHECK(((std::set<std::string>*)b)->insert(n).second, "a name is listed twice");
        return 0;
    };
    CHECK(LiteFs::rc([&] { return f.o->vreaddir(dir.c_str(), &r, fill, 0, &fi, &f.ctx); }) == 0, "directory cannot be listed");
    f.o->vreleasedir(dir.c_str(), &fi, &f.ctx);
    return r;
}
static void judge_listing(LiteFs& f, const Tree& t, const std::string& dir)
{
    auto l = listing(f, dir.empty() ? "/" : dir);
    CHECK(l.erase(".") == 1 && l.erase("..") == 1, "listing lacks . and ..");
    for (auto& e : t)
        if (parent(e.first) == dir)
        {
            CHECK(l.erase(last(e.first)) == 1, "an entry is not listed");
            if (e.second.kind == DIR_)
                judge_listing(f, t, e.first);
        }
    CHECK(l.empty(), "something else is listed");
}
enum Op
{
    CREATE,
    MKDIR,
    SYMLINK,
    LINK,
    RENAME,
    UNLINK,
    RMDIR,
    OPS
};
static int run(LiteFs& f, int op, const char* a, const char* b)
{
    return LiteFs::rc(
        [&]() -> int
        {
            switch (op)
            {
            case CREATE:
            {
                fuse_file_info fi{};
                int rc = f.o->vcreate(a, 0644, &fi, &f.ctx);
                if (rc == 0)
                    f.o->vrelease(a, &fi, &f.ctx);
                return rc;
            }
            case MKDIR:
                return f.o->vmkdir(a, 0755, &f.ctx);
            case SYMLINK:
                return f.o->vsymlink("abc", a, &f.ctx);
            case LINK:
                return f.o->vlink(a, b, &f.ctx);
            case RENAME:
                return f.o->vrename(a, b, &f.ctx);
            case UNLINK:
                return f.o->vunlink(a, &f.ctx);
            default:
                return f.o->vrmdir(a, &f.ctx);
            }
        });
}
static int next_ino = 1;
// whether the operation has to succeed, and its effect
static bool reference(Tree& t, int op, const std::string& a, const std::string& b)
{
    Kind ka = at(t, a);
    switch (op)
    {
    case CREATE:
    case MKDIR:
    case SYMLINK:
        if (ka != NONE)
            return false;
        t[a] = Node{op == CREATE ? FILE_ : op == MKDIR ? DIR_ : LINK_, next_ino++};
        return true;
    case LINK:
        if (ka == NONE || ka == DIR_ || at(t, b) != NONE)
            return false;
        t[b] = t[a];
        return true;
    case RENAME:
    {
        Kind kb = at(t, b);
        if (ka == NONE)
            return false;
        if (kb != NONE && t[a].ino == t[b].ino)
            return true;    // two links to one file: nothing happens
        if (kb != NONE && (kb == DIR_) != (ka == DIR_))
            return false;
        if (kb == DIR_ && has_kids(t, b))
            return false;
        Tree n;
        for (auto& e : t)
            if (e.first == a)
                n[b] = e.second;
            else if (below(e.first, a))
                n[b + e.first.substr(a.size())] = e.second;
            else if (e.first != b)
                n[e.first] = e.second;
        t = n;
        return true;
    }
    case UNLINK:
        if (ka == NONE || ka == DIR_)
            return false;
        t.erase(a);
        return true;
    default:
        if (ka != DIR_ || has_kids(t, a))
            return false;
        t.erase(a);
        return true;
    }
}
static void put(LiteFs& f, Tree& t, int op, const char* a, const char* b = nullptr)
{
    CHECK(reference(t, op, a, b ? b : ""), "the initial state is not one");
    CHECK(run(f, op, a, b) == 0, "operation on the initial state failed");
}
static const char* const SUFFIX[] = {"", ".ln"};
static void start(LiteFs& f, Tree& t, unsigned root)
{
    put(f, t, MKDIR, "/d");
    put(f, t, MKDIR, "/Dirr");
    switch (root)
    {
    case 1:
        put(f, t, CREATE, "/abcd");
        break;
    case 2:
        put(f, t, CREATE, "/abcd");
        put(f, t, LINK, "/abcd", "/abce");
        break;
    case 3:
        put(f, t, SYMLINK, "/abcd");
        put(f, t, CREATE, "/abc");
        break;
    case 4:
        put(f, t, MKDIR, "/abcd");
        break;
    default:
        break;
    }
    switch (sym_choice(0, 3, "below"))
    {
    case 1:
        put(f, t, CREATE, "/d/abcd");
        put(f, t, CREATE, "/Dirr/abcd");
        break;
    case 2:
        put(f, t, MKDIR, "/d/abcd");
        put(f, t, MKDIR, "/Dirr/sub1");
        put(f, t, CREATE, "/Dirr/sub1/abcd");
        break;
    case 3:    // empty again, with a table left behind
        put(f, t, CREATE, "/d/abcd");
        put(f, t, UNLINK, "/d/abcd");
        put(f, t, CREATE, "/Dirr/abcd");
        put(f, t, RENAME, "/Dirr/abcd", "/Dirr/abc");
        break;
    default:
        break;
    }
}
// any operation, with or without a failure of one of the calls it makes
static void step(LiteFs& f, Tree& t, bool faults)
{
    int op = (int)sym_choice(0, OPS - 1, "op");
    unsigned i = (unsigned)sym_choice(0, N - 1, "a"), j = 0;
    std::string a = PATHS[i], b;
    sym_assume(has_dir(t, a));    // the kernel looks up the directory first
    if (op == LINK || op == RENAME)
    {
        j = (unsigned)sym_choice(0, N - 1, "b");
        b = PATHS[j];
        sym_assume(j != i && !below(b, a) && !below(a, b));
        sym_assume(has_dir(t, b));
    }
    Tree before = t;
    bool ok = reference(t, op, a, b);
    auto &m = mos::fs();
    long fault = faults && ok ? (long)sym_choice(0, 6, "fault") : 0;    // what fails anyway needs no fault
    if (fault == 1 || fault == 2)
        m.fail_after = fault - 1;
    else if (fault == 6)
        m.write_fail_after = 0;
    else if (fault)
        msql::ctl().fail_after = fault - 3;
    int rc = run(f, op, a.c_str(), b.c_str());
    m.fail_after = m.write_fail_after = msql::ctl().fail_after = -1;
    CHECK(rc <= 0, "a positive result");
    if (!fault)
        CHECK((rc == 0) == ok, ok ? "an operation fails that should succeed" : "an operation succeeds that should fail");
    CHECK(rc != 0 || ok, "an operation succeeds that should fail");
    if (rc)
    {
        t = before;
        sym_reach(fault && ok ? "rolled-back" : "failed");
    }
    else
        sym_reach(op == CREATE || op == MKDIR || op == SYMLINK ? "created" : op == LINK ? "linked" : op == RENAME ? "renamed" : "removed");
}
extern "C" void h_ops()
{
    unsigned root = (unsigned)sym_choice(0, 4, "root");
    std::string suffix = SUFFIX[sym_param("suffixes", 0) ? sym_choice(0, 1, "suffix") : root % 2];
    LiteFs f(MODERN, LIMIT, suffix.c_str());
    if (suffix.empty())
        suffix = "...";
    Tree t;
    start(f, t, root);
    unsigned n = (unsigned)sym_param("ops", 1);
    for (unsigned i = 0; i < n; ++i)
    {
        step(f, t, sym_param("faults", 1) && i + 1 == n);
        judge(f, t, suffix);
    }
    if (sym_param("listing", 1))
    {
        LiteFs g(MODERN, LIMIT, suffix == "..." ? "" : suffix.c_str());
        judge_listing(g, t, "");
    }
}
// changing the suffix of a whole repository, whatever the order in which its directories list their entries
static void shuffle(const mos::InodeP& d)
{
    if (sym_choice(0, 1, "reversed"))
        std::reverse(d->kids.begin(), d->kids.end());
    if (sym_choice(0, 1, "tablefirst"))
        for (size_t i = 0; i < d->kids.size(); ++i)
            if (d->kids[i].first == ".long_names.db")
                std::swap(d->kids[0], d->kids[i]);
    for (auto& k : d->kids)
        if (k.second->dir() && !k.second->kids.empty())
            shuffle(k.second);
}
extern "C" void h_suffix()
{
    static const char* const S[] = {"", "...", ".ln", "n"};
    bool all = sym_param("all", 0) != 0;
    std::string from = S[sym_choice(0, all ? 3 : 1, "from") * (all ? 1 : 2)], to = S[sym_choice(0, 3, "to")];
    LiteFs f(MODERN, LIMIT, from.c_str());
    Tree t;
    unsigned root = (unsigned)sym_choice(0, 4, "root");
    if (!all && to.empty())
        sym_assume(root == 1);
    start(f, t, root);
    shuffle(mos::fs().root);
    DecryptedSecurefsParams p;
    p.mutable_lite_format_params()->set_long_name_threshold(LIMIT);
    p.mutable_lite_format_params()->set_long_name_suffix(from);
    int rc = LiteFs::rc(
        [&]
        {
            change_long_name_suffix("/", p, to);
            return 0;
        });
    if (to.empty())
    {
        CHECK(rc != 0, "an empty suffix is accepted");
        to = from;
        sym_reach("refused");
    }
    else
    {
        CHECK(rc == 0, "the suffix cannot be changed");
        CHECK(p.lite_format_params().long_name_suffix() == to || (from.empty() && to == "..."), "the new suffix is not recorded");
        sym_reach("changed");
    }
    std::string now = p.lite_format_params().long_name_suffix();
    if (rc)
        CHECK(now == from, "a suffix is recorded that was refused");
    LiteFs g(MODERN, LIMIT, now.c_str());
    judge(g, t, now.empty() ? "..." : now);
    judge_listing(g, t, "");
}

// Namespace operations of the full format against a POSIX model.
#include "full_fs.h"
#include <set>
namespace
{
struct Node
{
    unsigned kind = S_IFREG;
    std::string content;
    std::map<std::string, std::shared_ptr<Node>> kids;
    int names = 0;
    unsigned mode = 0644;
};
using NodeP = std::shared_ptr<Node>;
NodeP node(unsigned kind, const std::string& content = {})
{
    auto n = std::make_shared<Node>();
    n->kind = kind;
    n->content = content;
    return n;
}
struct World
{
    FullFs f{sym_param("legacy", 0) != 0};
    NodeP root = node(S_IFDIR);
    static std::vector<std::string> split(const std::string& p) { return mos::split(p); }
    // directory holding the last component, or an error
    NodeP parent(const std::string& p, std::string& last, int& err)
    {
        auto v = split(p);
        NodeP d = root;
        err = 0;
        for (size_t i = 0; i + 1 < v.size(); ++i)
        {
            auto it = d->kids.find(v[i]);
            if (it == d->kids.end())
                return err = ENOENT, nullptr;
            d = it->second;
            sym_assume(d->kind == S_IFDIR);    // checked by the kernel
        }
        last = v.back();
        return d;
    }
    NodeP get(const std::string& p)
    {
        std::string last;
        int err;
        auto d = parent(p, last, err);
        if (!d)
            return nullptr;
        auto it = d->kids.find(last);
        return it == d->kids.end() ? nullptr : it->second;
    }
    int m_add(const std::string& p, NodeP n)
    {
        std::string last;
        int err;
        auto d = parent(p, last, err);
        if (!d)
            return -err;
        if (d->kids.count(last))
            return -EEXIST;
        if (last.size() > 255)
            return -ENAMETOOLONG;
        d->kids[last] = n;
        ++n->names;
        return 0;
    }
    int m_remove(const std::string& p, bool dir)
    {
        std::string last;
        int err;
        auto d = parent(p, last, err);
        if (!d)
            return -err;
        auto it = d->kids.find(last);
        if (last.size() > 255)
            return -ENAMETOOLONG;
        if (it == d->kids.end())
            return -ENOENT;
        auto n = it->second;
        if (dir && n->kind != S_IFDIR)
            return -ENOTDIR;
        if (dir && !n->kids.empty())
            return -ENOTEMPTY;
        --n->names;
        d->kids.erase(it);
        return 0;
    }
    static bool inside(const NodeP& d, const NodeP& n)
    {
        if (d == n)
            return true;
        for (auto& k : d->kids)
            if (inside(k.second, n))
                return true;
        return false;
    }
    int m_rename(const std::string& a, const std::string& b)
    {
        std::string la, lb;
        int err;
        auto da = parent(a, la, err);
        if (!da)
            return -err;
        auto db = parent(b, lb, err);
        if (!db)
            return -err;
        if (la.size() > 255 || lb.size() > 255)
            return -ENAMETOOLONG;
        auto ia = da->kids.find(la);
        if (ia == da->kids.end())
            return -ENOENT;
        auto n = ia->second;
        auto ib = db->kids.find(lb);
        // calls which the kernel answers by itself
        sym_assume(!(n->kind == S_IFDIR && inside(n, db)));
        if (ib != db->kids.end())
        {
            auto t = ib->second;
            sym_assume((t->kind == S_IFDIR) == (n->kind == S_IFDIR));
            if (t == n)
                return 0;
            if (t->kind == S_IFDIR && !t->kids.empty())
                return -ENOTEMPTY;
            --t->names;
        }
        da->kids.erase(la);
        db->kids[lb] = n;
        return 0;
    }
    int m_link(const std::string& a, const std::string& b)
    {
        auto n = get(a);
        if (!n)
            return -ENOENT;
        return m_add(b, n);
    }
    static NodeP clone(const NodeP& n, std::map<Node*, NodeP>& m)
    {
        auto& r = m[n.get()];
        if (!r)
        {
            r = std::make_shared<Node>(*n);
            auto x = r;
            for (auto& k : x->kids)
                k.second = clone(k.second, m);
            return x;
        }
        return r;
    }
    bool faulty = false;
    void compare_node(const std::string& p, const NodeP& n, std::set<Node*>& seen)
    {
        seen.insert(n.get());
        fuse_stat st{};
        CHECK(FullFs::rc([&] { return f.o->vgetattr(p.empty() ? "/" : p.c_str(), &st, &f.ctx); }) == 0, "name lost");
        CHECK((st.st_mode & S_IFMT) == n->kind, "name refers to another kind of file");
        if (n->kind == S_IFREG)
        {
            CHECK((st.st_mode & 0777) == 0644 && st.st_uid == 1000 && st.st_gid == 1001, "owner or permissions of a file");
            CHECK((int)st.st_nlink == n->names, "link count differs from the number of names");
            std::string c;
            CHECK(f.read(p, c) == 0, "file not readable");
            CHECK(same(c, n->content), "content differs");
        }
        else if (n->kind == S_IFLNK)
        {
            char b[32];
            CHECK(FullFs::rc([&] { return f.o->vreadlink(p.c_str(), b, sizeof b, &f.ctx); }) == 0, "link not readable");
            CHECK(same(b, n->content), "link target differs");
        }
        else
        {
            std::vector<std::pair<std::string, unsigned>> l;
            CHECK(f.list(p.empty() ? "/" : p, l) == 0, "directory not readable");
            CHECK(l.size() == n->kids.size() + 2, "number of entries");
            for (auto& x : l)
                if (x.first != "." && x.first != "..")
                {
                    auto it = n->kids.find(x.first);
                    CHECK(it != n->kids.end(), "entry which should not be there");
                    CHECK(x.second == it->second->kind, "kind of an entry");
                }
            for (auto& k : n->kids)
                compare_node(p + "/" + k.first, k.second, seen);
        }
    }
    void compare()
    {
        std::set<Node*> seen;
        compare_node("", root, seen);
        // (a file whose name turns out to be too long only after it was made stays behind: the kernel looks names up first)
        if (!sym_param("long", 0) && !faulty)
            CHECK(FullFs::stored() == 2 * seen.size(), "stored files without a name, or names without stored files");
    }
    // one arbitrary operation: its result, and that of the model
    std::pair<int, int> operate(const std::vector<std::string>& P, std::string& p, std::string& q)
    {
        int got = 0, want = 0;
        op = (int)sym_choice(0, 6, "op");
        p = P[sym_choice(0, P.size() - 1, "p")];
        if (op >= 5)
            q = P[sym_choice(0, P.size() - 1, "q")];
        switch (op)
        {
        case 0:
        {
            std::string c = sym_bytes(1, "content");
            want = m_add(p, node(S_IFREG, c));
            got = f.create(p, c);
            break;
        }
        case 1:
            want = m_add(p, node(S_IFDIR));
            got = FullFs::rc([&] { return f.o->vmkdir(p.c_str(), 0755, &f.ctx); });
            break;
        case 2:
            want = m_add(p, node(S_IFLNK, "t"));
            got = FullFs::rc([&] { return f.o->vsymlink("t", p.c_str(), &f.ctx); });
            break;
        case 3:
        {
            auto n = get(p);
            sym_assume(!n || n->kind != S_IFDIR);    // the kernel answers EISDIR
            want = m_remove(p, false);
            got = FullFs::rc([&] { return f.o->vunlink(p.c_str(), &f.ctx); });
            break;
        }
        case 4:
            want = m_remove(p, true);
            got = FullFs::rc([&] { return f.o->vrmdir(p.c_str(), &f.ctx); });
            break;
        case 5:
            want = m_rename(p, q);
            got = FullFs::rc([&] { return f.o->vrename(p.c_str(), q.c_str(), &f.ctx); });
            break;
        case 6:
        {
            auto n = get(p);
            sym_assume(!n || n->kind == S_IFREG);
            want = m_link(p, q);
            got = FullFs::rc([&] { return f.o->vlink(p.c_str(), q.c_str(), &f.ctx); });
            break;
        }
        }
        return {got, want};
    }
    int op = 0;
    void step(const std::vector<std::string>& P)
    {
        std::map<Node*, NodeP> m;
        auto before = clone(root, m);
        bool faults = sym_param("faults", 0);
        int made = mos::fs().modifications;
        if (faults)
            mos::fs().fail_after = (long)sym_choice(0, 3, "fail");
        std::string p, q;
        auto [got, want] = operate(P, p, q);
        if (faults)
        {
            bool failed = mos::fs().fail_after == 0 && mos::fs().modifications > made;
            mos::fs().fail_after = -1;
            faulty |= failed;
            if (failed && got < 0 && want < 0)
                return;
            if (got < 0 && want == 0 && failed)
            {
                root = before;
                sym_reach("fault");
                return;
            }
        }
        CHECK((got == 0) == (want == 0), "operation succeeded or failed when it should not");
        CHECK(got <= 0, "positive result");
        if (p.size() > 255 || q.size() > 255)
            sym_reach("long");
        else if (want == -ENOENT || want == -EEXIST || want == -ENOTEMPTY)
            CHECK(got == want, "error number");
        static const char* T[] = {"create", "mkdir", "symlink", "unlink", "rmdir", "rename", "link"};
        sym_reach(T[op]);
        sym_reach(want == 0 ? "done" : "refused");
    }
    // an arbitrary small tree
    void build()
    {
        // 0 nothing, 1 file, 2 empty directory, 3 directory with a file, 4 symbolic link, 5 directory with a directory,
        // 6 second name of /a, 7 directory with a second name of /a
        int a = (int)sym_param("a", -1), b;
        if (a < 0)
            a = (int)sym_choice(0, 5, "a");
        b = (int)sym_choice(0, a == 1 ? 7 : 5, "b");
        auto put = [&](const std::string& p, int k, const char* name)
        {
            std::string c;
            switch (k)
            {
            case 1:
                c = sym_bytes(1, name);
                m_add(p, node(S_IFREG, c));
                f.create(p, c);
                break;
            case 2:
            case 5:
            case 3:
                m_add(p, node(S_IFDIR));
                f.o->vmkdir(p.c_str(), 0755, &f.ctx);
                if (k == 5)
                {
                    m_add(p + "/x", node(S_IFDIR));
                    f.o->vmkdir((p + "/x").c_str(), 0755, &f.ctx);
                }
                if (k == 3)
                {
                    c = sym_bytes(1, name);
                    m_add(p + "/x", node(S_IFREG, c));
                    f.create(p + "/x", c);
                }
                break;
            case 4:
                m_add(p, node(S_IFLNK, "t"));
                f.o->vsymlink("t", p.c_str(), &f.ctx);
                break;
            case 7:
                m_add(p, node(S_IFDIR));
                f.o->vmkdir(p.c_str(), 0755, &f.ctx);
                m_link("/a", p + "/x");
                f.o->vlink("/a", (p + "/x").c_str(), &f.ctx);
                break;
            case 6:
                m_link("/a", p);
                f.o->vlink("/a", p.c_str(), &f.ctx);
                break;
            }
        };
        put("/a", a, "a.content");
        put("/b", b, "b.content");
    }
};
}    // namespace
extern "C" void h_ops()
{
    World w;
    w.build();
    std::vector<std::string> P{"/a", "/b", "/c", "/a/x", "/b/x", "/b/y"};
    if (sym_param("long", 0))
        P.push_back("/" + std::string(256, 'n'));
    long n = sym_param("ops", 1);
    for (long i = 0; i < n; ++i)
        w.step(P);
    if (sym_param("kill", 0))
        w.f.kill();
    else
    {
        w.compare();
        w.f.remount();
    }
    w.compare();
    sym_reach("end");
}

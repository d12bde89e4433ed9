// A failing storage makes operations fail, and does nothing else: the real full format with an underlying call of any kind,
// at any position, failing once or from then on, until it works again.
#include "C22.cpp"
namespace
{
struct Faults : World
{
    std::string p, q;
    bool touched(const std::string& s) const
    {
        auto under = [&](const std::string& r) { return !r.empty() && s.compare(0, r.size(), r) == 0 && (s.size() == r.size() || s[r.size()] == '/'); };
        return under(p) || under(q);
    }
    // everything an operation that failed did not name is as before
    void others(const std::string& path, const NodeP& n)
    {
        if (touched(path))
        {
            sym_reach("named");
            return;
        }
        fuse_stat st{};
        CHECK(FullFs::rc([&] { return f.o->vgetattr(path.empty() ? "/" : path.c_str(), &st, &f.ctx); }) == 0, "another name lost");
        CHECK((st.st_mode & S_IFMT) == n->kind, "another name refers to another kind of file");
        if (n->kind == S_IFREG)
        {
            std::string c;
            CHECK(f.read(path, c) == 0, "another file not readable");
            CHECK(same(c, n->content), "content of another file differs");
        }
        else if (n->kind == S_IFLNK)
        {
            char b[32];
            CHECK(FullFs::rc([&] { return f.o->vreadlink(path.c_str(), b, sizeof b, &f.ctx); }) == 0, "another link not readable");
            CHECK(same(b, n->content), "target of another link differs");
        }
        else
        {
            std::vector<std::pair<std::string, unsigned>> l;
            CHECK(f.list(path.empty() ? "/" : path, l) == 0, "another directory not readable");
            std::set<std::string> names;
            for (auto& x : l)
                if (x.first != "." && x.first != "..")
                {
                    CHECK(names.insert(x.first).second, "name listed twice");
                    CHECK(touched(path + "/" + x.first) || n->kids.count(x.first), "entry which should not be there");
                }
            for (auto& k : n->kids)
            {
                CHECK(touched(path + "/" + k.first) || names.count(k.first), "entry lost");
                others(path + "/" + k.first, k.second);
            }
        }
    }
    void run(const std::vector<std::string>& P)
    {
        std::map<Node*, NodeP> m;
        auto before = clone(root, m);
        auto& s = mos::fs();
        s.io_fail_after = (long)sym_choice(0, sym_param("calls", 20), "calls");
        s.io_once = sym_fork_flag("once");
        auto [got, want] = operate(P, p, q);
        bool unmounted = sym_fork_flag("unmounted while failing");
        if (unmounted)
        {
            f.unmount();
            s.io_fail_after = -1;
            sym_reach("unmounted");
            return;    // what could not be written is lost
        }
        bool failed = s.io_failures > 0;
        s.io_fail_after = -1;
        CHECK(got <= 0, "positive result");
        if (!failed)
        {
            CHECK((got == 0) == (want == 0), "operation succeeded or failed when it should not");
            sym_reach("unaffected");
            return;
        }
        if (got == 0 && want == 0)
        {
            sym_reach("stored later");
            faulty = true;    // files given up may stay behind
            compare();
            f.remount();
            compare();
            return;
        }
        CHECK(got < 0, "operation succeeded when it should not");
        sym_reach("failed");
        others("", before);
        f.remount();
        others("", before);
    }
};
}    // namespace
extern "C" void h_faults()
{
    Faults w;
    w.build();
    if (sym_fork_flag("fresh"))
        w.f.remount();
    w.run({"/a", "/b", "/c", "/a/x", "/b/x"});
}

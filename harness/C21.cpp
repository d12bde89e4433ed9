// The table of open files of the full format: one live object per file, flushed before it is dropped, deleted once.
#include "full_fs.h"
namespace
{
constexpr int MAXF = 60;
struct Track
{
    id_type id;
    int live = 0, holders = 0, deleted = 0, constructed = 0;
    bool exists = true, unlinked = false;
    std::string content;
};
struct Book
{
    Track t[MAXF];
    int n = 0;
    Track* of(const id_type& id)
    {
        for (int i = 0; i < n; ++i)
            if (t[i].id == id)
                return t + i;
        return nullptr;
    }
};
Book* g;
class Watched : public RegularFile
{
    Track* t_;

public:
    template <class... A>
    explicit Watched(Track* t, A&&... a) : RegularFile(std::forward<A>(a)...), t_(t)
    {
        if (!t_)
            return;
        CHECK(t_->live == 0, "second live object of one file");
        CHECK(t_->deleted == 0, "deleted file brought back");
        ++t_->live;
        ++t_->constructed;
    }
    ~Watched()
    {
        if (!t_)
            return;
        --t_->live;
        CHECK(t_->holders == 0, "object destroyed while it is held");
        CHECK(is_unlinked() || !is_dirty(), "object dropped before it was flushed");
    }
};
class Io : public FileTableIO
{
public:
    std::shared_ptr<FileTableIO> io;
    explicit Io(std::shared_ptr<FileTableIO> x) : io(std::move(x)) {}
    FileStreamPtrPair open(const id_type& id) override { return io->open(id); }
    FileStreamPtrPair create(const id_type& id) override
    {
        CHECK(!(id == kRootId) || g->n == 0, "root created again");
        if (!(id == kRootId))
        {
            CHECK(g->of(id) == nullptr, "identifier used twice");
            g->t[g->n++].id = id;
        }
        return io->create(id);
    }
    void unlink(const id_type& id) noexcept override
    {
        auto t = g->of(id);
        CHECK(t != nullptr, "unknown file deleted");
        CHECK(t->unlinked, "file deleted which still has a name");
        CHECK(t->deleted == 0, "file deleted twice");
        CHECK(t->holders == 0, "file deleted while it is open");
        ++t->deleted;
        io->unlink(id);
    }
};
struct Sys
{
    Book book;
    std::shared_ptr<OSService> os = std::make_shared<OSService>("/");
    std::unique_ptr<FileTable> ft;
    bool legacy;
    explicit Sys(bool l = false) : legacy(l)
    {
        g = &book;
        mount();
    }
    ~Sys() { g = nullptr; }
    template <class T, class... A>
    std::unique_ptr<T> make(std::shared_ptr<FileStream> d, std::shared_ptr<FileStream> m, const id_type& id, A... a)
    {
        return std::make_unique<T>(a...,
                                   std::move(d),
                                   std::move(m),
                                   StrongType<key_type, tMasterKey>(test_key()),
                                   id,
                                   StrongType<bool, tVerify>(true),
                                   StrongType<unsigned, tBlockSize>(64),
                                   StrongType<unsigned, tIvSize>(12),
                                   StrongType<unsigned, tMaxPaddingSize>(0),
                                   StrongType<bool, tStoreTimeWithinFs>(false));
    }
    void mount()
    {
        using S = std::shared_ptr<FileStream>;
        ft = std::make_unique<FileTable>(
            std::make_shared<Io>(make_table_io(os, StrongType<bool, tLegacy>(legacy), StrongType<bool, tReadOnly>(false))),
            [this](S d, S m, const id_type& id) { return make<Watched>(d, m, id, book.of(id)); },
            [this](S d, S m, const id_type& id)
            { return make<BtreeDirectory>(d, m, id, Directory::DirNameComparison{&name_cmp}); },
            [this](S d, S m, const id_type& id) { return make<Symlink>(d, m, id); });
    }
    static const int REG = RegularFile::class_type();
    // creates a file, as the operations do; returns its holder
    FilePtrHolder create(int& i)
    {
        auto h = ft->create_as(REG);
        FileLockGuard lg(*h);
        h->initialize_empty(0644 | S_IFREG, 1, 2);
        i = (int)(book.of(h->get_id()) - book.t);
        ++book.t[i].holders;
        return h;
    }
    FilePtrHolder open(int i)
    {
        auto h = ft->open_as(book.t[i].id, REG);
        ++book.t[i].holders;
        CHECK(h && h->get_id() == book.t[i].id, "object of another file");
        CHECK(book.t[i].live == 1, "not exactly one object of an open file");
        return h;
    }
    void close(int i, FilePtrHolder& h)
    {
        --book.t[i].holders;
        h.reset();
    }
    void write(int i, FilePtrHolder& h, const std::string& c)
    {
        FileLockGuard lg(*h);
        h->cast_as<RegularFile>()->write(c.data(), 0, c.size());
        book.t[i].content = c;
    }
    std::string read(FilePtrHolder& h)
    {
        FileLockGuard lg(*h);
        auto f = h->cast_as<RegularFile>();
        std::string r(8, '\x5a');
        r.resize(f->read(&r[0], 0, 8));
        return r;
    }
    void unlink(int i, FilePtrHolder& h)
    {
        FileLockGuard lg(*h);
        h->unlink();
        book.t[i].unlinked = true;
    }
    // everything closed: files with a name are intact, the others are gone
    void verify()
    {
        for (int i = 0; i < book.n; ++i)
        {
            auto& t = book.t[i];
            CHECK(t.holders == 0, "harness");
            if (t.unlinked)
            {
                CHECK(t.deleted == 1 && t.live == 0, "unlinked file not deleted after its last close");
                CHECK(throws([&] { ft->open_as(t.id, REG); }), "deleted file can be opened");
                continue;
            }
            CHECK(t.deleted == 0, "file with a name deleted");
            auto h = open(i);
            CHECK(same(read(h), t.content), "content lost");
            close(i, h);
        }
    }
    void finish()
    {
        verify();
        ft.reset();
        size_t names = 0;
        for (int i = 0; i < book.n; ++i)
        {
            CHECK(book.t[i].live == 0, "object alive after the table");
            names += !book.t[i].unlinked;
        }
        CHECK(FullFs::stored() == 2 * (names + 1), "stored files");
        mount();
        verify();
        ft.reset();
    }
};
const int Sys::REG;
int g_shards = 1;
void ids(void* p, size_t n)
{
    symc::token(p, n);
    static int k;
    if (n == id_type::size() && g_shards)
    {    // the shard of a file follows from the first byte of its identifier
        auto b = (unsigned char*)p;
        b[0] = (unsigned char)(0xe0 | (k++ % g_shards));
    }
}
}    // namespace
// histories of operations on two files
extern "C" void h_history()
{
    symc::st().rng = &ids;
    g_shards = (int)sym_choice(1, 2, "shards");
    Sys s(sym_param("legacy", 0) != 0);
    struct Handle
    {
        FilePtrHolder h;
        int i;
    };
    std::vector<Handle> held;
    long n = sym_param("ops", 4), files = sym_param("files", 2);
    for (long k = 0; k < n; ++k)
    {
        int op = (int)sym_choice(0, 4, "op");
        if (op == 0)
        {
            sym_assume(s.book.n < files);
            int i;
            auto h = s.create(i);
            held.push_back({std::move(h), i});
            sym_reach("create");
        }
        else if (op == 1)
        {
            sym_assume(s.book.n > 0);
            int i = (int)sym_choice(0, s.book.n - 1, "file");
            sym_assume(!s.book.t[i].unlinked);    // no name leads to it any more
            sym_assume(held.size() < 3);
            auto h = s.open(i);
            for (auto& x : held)
                if (x.i == i)
                {
                    CHECK(x.h.get() == h.get(), "two objects of one file");
                    sym_reach("shared");
                }
            CHECK(same(s.read(h), s.book.t[i].content), "content");
            held.push_back({std::move(h), i});
            sym_reach("open");
        }
        else
        {
            sym_assume(!held.empty());
            int w = (int)sym_choice(0, held.size() - 1, "handle");
            auto& x = held[w];
            if (op == 2)
            {
                s.write(x.i, x.h, sym_bytes(2, "content"));
                sym_reach("write");
            }
            else if (op == 3)
            {
                sym_assume(!s.book.t[x.i].unlinked);
                s.unlink(x.i, x.h);
                sym_reach("unlink");
            }
            else
            {
                Handle y = std::move(held[w]);
                held.erase(held.begin() + w);
                s.close(y.i, y.h);
                auto& t = s.book.t[y.i];
                if (t.unlinked)
                    CHECK(t.deleted == (t.holders == 0), "unlinked file not deleted at its last close");
                if (t.holders)
                    CHECK(t.live == 1, "object destroyed while it is held");
                sym_reach("close");
            }
        }
        for (auto& x : held)
            CHECK(same(s.read(x.h), s.book.t[x.i].content), "content seen through a handle");
    }
    if (!held.empty() && sym_fork_flag("abrupt"))
    {    // the table goes away while files are open: they are flushed
        bool gone = false;
        for (auto& x : held)
        {
            gone |= s.book.t[x.i].unlinked;
            s.book.t[x.i].holders = 0;
            x.h.release();
        }
        sym_assume(!gone);
        s.ft.reset();
        s.mount();
        s.verify();
        sym_reach("abrupt");
        return;
    }
    while (!held.empty())
    {
        Handle y = std::move(held.back());
        held.pop_back();
        s.close(y.i, y.h);
    }
    s.finish();
    sym_reach("end");
}
// more files of one shard than the table keeps
extern "C" void h_evict()
{
    symc::st().rng = &ids;
    g_shards = 1;
    Sys s;
    const int N = (int)sym_param("n", 53);
    int keep = (int)sym_choice(0, 2, "keep") * 5;          // stays open
    int again = (int)sym_choice(0, 3, "again") * 13 + 1;    // reopened after all others were closed
    int last = (int)sym_choice(0, 2, "last");              // what happens to it
    FilePtrHolder kept{nullptr, FileTableCloser(nullptr)};
    for (int k = 0; k < N; ++k)
    {
        int i;
        auto h = s.create(i);
        s.write(i, h, std::string(1, (char)('A' + k % 26)) + (k % 7 == 0 ? sym_bytes(1, "c") : "x"));
        if (k == keep)
            kept = std::move(h);
        else
            s.close(i, h);
    }
    auto h = s.open(again);
    CHECK(same(s.read(h), s.book.t[again].content), "content lost");
    if (last == 1)
        s.write(again, h, sym_bytes(2, "new"));
    if (last == 2)
        s.unlink(again, h);
    s.close(again, h);
    int total = 0;
    for (int i = 0; i < s.book.n; ++i)
        total += s.book.t[i].live;
    sym_reach(total < N - 1 ? "evicted" : "all");
    CHECK(same(s.read(kept), s.book.t[keep].content), "content seen through a handle");
    s.close(keep, kept);
    s.finish();
}
#ifdef SYM_SCHED
// two threads using one file at the same time
namespace
{
struct Job
{
    Sys* s;
    int op, i, who;
    FilePtrHolder h{nullptr, FileTableCloser(nullptr)};
    bool opened = false, failed = false;
};
void job(void* p)
{
    auto& j = *(Job*)p;
    auto& t = j.s->book.t[j.i];
    auto h = std::move(j.h);
    if (!h)
    {
        try
        {
            h = j.s->open(j.i);
        }
        catch (const std::exception&)
        {
            CHECK(t.unlinked, "file with a name cannot be opened");
            j.failed = true;
            sym_reach("lost-race");
            return;
        }
    }
    j.opened = true;
    switch (j.op)
    {
    case 0:
        break;
    case 1:
    {
        std::string c(2, (char)('P' + j.who));
        FileLockGuard lg(*h);
        h->cast_as<RegularFile>()->write(c.data(), 0, c.size());
        t.content = c;    // while the lock is held
        break;
    }
    case 2:
        j.s->unlink(j.i, h);
        break;
    case 3:
    {
        FileLockGuard lg(*h);
        std::string r(8, '\x5a');
        r.resize(h->cast_as<RegularFile>()->read(&r[0], 0, 8));
        CHECK(same(r, t.content), "content seen through a handle");
        break;
    }
    case 4:
    {
        int i;
        auto n = j.s->create(i);
        j.s->write(i, n, "n");
        j.s->close(i, n);
        break;
    }
    }
    j.s->close(j.i, h);
}
}    // namespace
extern "C" void h_threads()
{
    symc::st().rng = &ids;
    g_shards = 1;
    Sys s;
    int i;
    {
        auto h = s.create(i);
        s.write(i, h, sym_bytes(2, "content"));
        s.close(i, h);
    }
    const int T = (int)sym_param("threads", 2);
    Job a{&s, (int)sym_choice(0, 4, "a"), i, 0}, b{&s, (int)sym_choice(0, 4, "b"), i, 1}, c{&s, T > 2 ? (int)sym_choice(0, 4, "c") : 0, i, 2};
    sym_assume(a.op <= b.op && (T < 3 || b.op <= c.op) && (a.op == 2) + (b.op == 2) + (c.op == 2) <= 1);
    int start = (int)sym_choice(0, T, "start");
    if (start == 0)
    {    // not in memory
        s.ft.reset();
        s.mount();
    }    // 1: closed but still in memory
    if (start >= 2)
        a.h = s.open(i);
    if (start >= 3)
        b.h = s.open(i);
    int q = (int)sym_param("preemptions", 2);
    if (T == 2)
        sched::run({&job, &job}, {&a, &b}, q);
    else
        sched::run({&job, &job, &job}, {&a, &b, &c}, q);
    s.finish();
    sym_reach(a.op == 2 || b.op == 2 || c.op == 2 ? "with-unlink" : "without-unlink");
}
#endif

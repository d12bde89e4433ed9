// Directory B-tree: an arbitrary valid tree of a given shape is laid out page by page in the documented on-disk format by
// this file's own encoder; the real directory object is opened over it, performs operations with symbolic names, and the
// resulting pages are decoded again and compared with a plain ordered map.
#include "os.h"
#include "btree_dir.h"
using namespace model;
static const unsigned PG = 4096;
static const uint32_t NONE = 0xffffffffu;
// focus 0: the map and the shape of the tree (C14); focus 1: who owns which page (C15)
static bool pages_only() { return sym_param("pages", 0) != 0; }
#define CHECK_MAP(c, m) \
    do \
    { \
        if (!pages_only()) \
            CHECK(c, m); \
    } while (0)
#define CHECK_PAGE(c, m) \
    do \
    { \
        if (pages_only()) \
            CHECK(c, m); \
    } while (0)
struct Ent
{
    std::string name;
    unsigned id;    // distinguishes the entries
    uint32_t type;
};
// The directory is parameterised by its comparison function. rev=0: binary order. rev=1: an order that runs the other
// way and ignores everything after the second character, so that distinct names can be equal (as in the case and
// normalisation insensitive modes). Each comparison is decided on the spot, which keeps the positions found by binary
// search concrete on every path.
static bool rev() { return sym_param("rev", 0) != 0; }
static int order(std::string_view a, std::string_view b)
{
    int c = rev() ? b.substr(0, 2).compare(a.substr(0, 2)) : a.compare(b);
    return (int)sym_conc((uint64_t)(c < 0 ? 0 : c == 0 ? 1 : 2)) - 1;
}
static int cmp_fn(std::string_view a, std::string_view b) { return order(a, b); }
static id_type make_id(unsigned i)
{
    id_type r{};
    r.data()[0] = (byte)i;
    r.data()[1] = (byte)(i >> 8);
    r.data()[31] = 0xe1;
    return r;
}
static unsigned id_num(const byte* p) { return p[0] | p[1] << 8; }
// key number k (any spacing) as a two byte name
static std::string key_name(unsigned k)
{
    unsigned char a = (unsigned char)(1 + k / 200), b = (unsigned char)(1 + k % 200);
    std::string s;
    s.push_back((char)(rev() ? 255 - a : a));
    s.push_back((char)(rev() ? 255 - b : b));
    if (rev())
        s.push_back('x');
    return s;
}
static void le32(unsigned char* p, uint32_t v)
{
    for (int i = 0; i < 4; ++i)
        p[i] = (unsigned char)(v >> (8 * i));
}
static uint32_t rd32(const unsigned char* p)
{
    uint32_t v = 0;
    for (int i = 0; i < 4; ++i)
        v |= (uint32_t)p[i] << (8 * i);
    return v;
}
struct Store
{
    std::shared_ptr<MemStream> m = std::make_shared<MemStream>();
    std::vector<Ent> ref;    // sorted
    uint32_t root = NONE, free_head = NONE, nfree = 0;
    unsigned nextkey = 0, lo = 0, hi = 0;    // lo, hi: key numbers of the chosen leaf
    uint32_t new_page()
    {
        uint32_t n = (uint32_t)(m->d.size() / PG);
        m->d.resize((n + 1) * PG, 0);
        return n;
    }
    void put_node(uint32_t pg, const std::vector<Ent>& es, const std::vector<uint32_t>& kids)
    {
        unsigned char* p = m->d.data() + (size_t)pg * PG;
        le32(p, 1);
        p[4] = (unsigned char)kids.size(), p[5] = 0, p[6] = (unsigned char)es.size(), p[7] = 0;
        p += 8;
        for (uint32_t k : kids)
            le32(p, k), p += 4;
        for (auto& e : es)
        {
            memcpy(p, e.name.data(), e.name.size());
            auto id = make_id(e.id);
            memcpy(p + 256, id.data(), 32);
            le32(p + 288, e.type);
            p += 292;
        }
    }
    Ent next_ent()
    {
        unsigned k = nextkey++;
        Ent e{key_name(2 * k + 1), k + 1, (k % 3) ? 8u : 4u};
        ref.push_back(e);
        return e;
    }
    uint32_t leaf(unsigned n)
    {
        std::vector<Ent> es;
        for (unsigned i = 0; i < n; ++i)
            es.push_back(next_ent());
        uint32_t pg = new_page();
        put_node(pg, es, {});
        return pg;
    }
    // free pages interleaved with the live ones
    std::vector<uint32_t> frees;
    void add_free() { frees.push_back(new_page()); }
    void link_free()
    {
        for (unsigned n = (unsigned)sym_choice(sym_param("minfree", 0), sym_param("maxfree", 0), "morefree"); n; --n)
            add_free();
        for (size_t i = 0; i < frees.size(); ++i)
        {
            unsigned char* p = m->d.data() + (size_t)frees[i] * PG;
            le32(p + 4, i + 1 < frees.size() ? frees[i + 1] : NONE);
            le32(p + 8, i ? frees[i - 1] : NONE);
        }
        nfree = (uint32_t)frees.size();
        free_head = frees.empty() ? NONE : frees[0];
    }
};
struct Dir
{
    std::unique_ptr<BtreeDirectory> d;
    std::shared_ptr<MemStream> m;
    explicit Dir(const Store& s) : m(s.m) { open(s.root, s.free_head, s.nfree); }
    void open(uint32_t root, uint32_t fh, uint32_t nf)
    {
        d = std::make_unique<BtreeDirectory>(Directory::DirNameComparison{&cmp_fn},
                                             std::shared_ptr<FileStream>(mos::new_file()),
                                             std::shared_ptr<FileStream>(mos::new_file()),
                                             StrongType<key_type, tMasterKey>(test_key()),
                                             make_id(0),
                                             StrongType<bool, tVerify>(true),
                                             StrongType<unsigned, tBlockSize>(PG),
                                             StrongType<unsigned, tIvSize>(12),
                                             StrongType<unsigned, tMaxPaddingSize>(0),
                                             StrongType<bool, tStoreTimeWithinFs>(false));
        d->initialize_empty(0755 | S_IFDIR, 0, 0);
        d->m_stream = m;    // the encrypted stream behaves like a byte array: C03
        d->set_root_page(root);
        d->set_start_free_page(fh);
        d->set_num_free_page(nf);
    }
};
// ---- independent decoder and judge
struct Judge
{
    const std::vector<unsigned char>& img;
    std::vector<int> owner;    // 0 unused, 1 tree, 2 free
    std::vector<Ent> list;
    int leafdepth = -1;
    explicit Judge(const std::vector<unsigned char>& i) : img(i), owner(i.size() / PG, 0) {}
    void claim(uint32_t pg, int what)
    {
        CHECK(pg < owner.size(), "page number beyond the directory's pages");
        CHECK_PAGE(owner[pg] == 0, "page used twice");
        owner[pg] = what;
    }
    void node(uint32_t pg, int depth, bool isroot)
    {
        CHECK(depth < 6, "tree too deep");
        claim(pg, 1);
        const unsigned char* p = img.data() + (size_t)pg * PG;
        CHECK(rd32(p) == 1, "live page is not marked as a node");
        unsigned nk = p[4] | p[5] << 8, ne = p[6] | p[7] << 8;
        CHECK_MAP(ne <= 13, "node with too many entries");
        CHECK_MAP(isroot || ne >= 6, "node with too few entries");
        CHECK_MAP(nk == 0 || nk == ne + 1, "number of children");
        CHECK_MAP(nk == 0 || ne > 0, "inner node without entries");
        const unsigned char* q = p + 8 + 4 * nk;
        for (unsigned i = 0; i <= ne; ++i)
        {
            if (nk)
                node(rd32(p + 8 + 4 * i), depth + 1, false);
            if (i == ne)
                break;
            const unsigned char* e = q + 292 * i;
            Ent x;
            // names are at most three bytes here; the rest of the field must be zero
            size_t n = 0;
            while (n < 255 && e[n])
                ++n;
            x.name.assign((const char*)e, n);
            x.id = id_num(e + 256);
            CHECK_MAP(e[256 + 31] == 0xe1, "entry id damaged");
            x.type = rd32(e + 288);
            list.push_back(x);
        }
        if (!nk)
        {
            CHECK_MAP(leafdepth < 0 || leafdepth == depth, "leaves at different depths");
            leafdepth = depth;
        }
    }
    void freelist(uint32_t head, uint32_t count)
    {
        uint32_t prev = NONE, n = 0;
        while (head != NONE)
        {
            CHECK_PAGE(n < count, "free list longer than recorded");
            claim(head, 2);
            const unsigned char* p = img.data() + (size_t)head * PG;
            CHECK_PAGE(rd32(p) == 0, "free page marked as a node");
            CHECK_PAGE(rd32(p + 8) == prev, "free list back link");
            prev = head;
            head = rd32(p + 4);
            ++n;
        }
        CHECK_PAGE(n == count, "recorded count of free pages");
    }
    void finish()
    {
        for (int o : owner)
            CHECK_PAGE(o != 0, "page is neither a node nor on the free list");
    }
};
// expected: sorted reference list
static void judge(Dir& dir, const std::vector<Ent>& ref, const char* what)
{
    dir.d->subflush();
    Judge j(dir.m->d);
    uint32_t root = dir.d->get_root_page();
    if (root != NONE)
        j.node(root, 0, true);
    if (pages_only())
        j.freelist(dir.d->get_start_free_page(), dir.d->get_num_free_page());
    if (pages_only())
        j.finish();
    if (pages_only())
        return;
    CHECK(j.list.size() == ref.size(), what);
    for (size_t i = 0; i < ref.size(); ++i)
    {
        CHECK(j.list[i].id == ref[i].id, what);
        CHECK(j.list[i].type == ref[i].type, "type of an entry changed");
        CHECK(same(j.list[i].name, ref[i].name), "name of an entry changed");
    }
}
static size_t position(const std::vector<Ent>& ref, const std::string& name, bool& equal)
{
    size_t lo = 0, hi = ref.size();
    while (lo < hi)
    {
        size_t mid = (lo + hi) / 2;
        int c = order(name, ref[mid].name);
        if (c == 0)
        {
            equal = true;
            return mid;
        }
        if (c < 0)
            hi = mid;
        else
            lo = mid + 1;
    }
    equal = false;
    return lo;
}
static void do_op(Dir& dir, std::vector<Ent>& ref, unsigned op, const std::string& name, unsigned newid)
{
    bool equal;
    size_t pos = position(ref, name, equal);
    id_type id = make_id(0xffff);
    int type = -7;
    switch (op)
    {
    case 0:
    {
        uint32_t t = newid % 2 ? 8 : 10;
        bool ok = dir.d->add_entry(name, make_id(newid), (int)t);
        CHECK_MAP(ok == !equal, "adding succeeds exactly when the name is absent");
        if (ok && (!pages_only() || !equal))
        {
            ref.insert(ref.begin() + pos, Ent{name, newid, t});
            sym_reach("added");
        }
        else
            sym_reach("exists");
        break;
    }
    case 1:
    {
        bool ok = dir.d->remove_entry(name, id, type);
        CHECK_MAP(ok == equal, "removing succeeds exactly when the name is present");
        if (ok)
        {
            CHECK_MAP(id_num(id.data()) == ref[pos].id && id.data()[31] == 0xe1, "removal reports another id");
            CHECK_MAP((uint32_t)type == ref[pos].type, "removal reports another type");
            if (equal)
                ref.erase(ref.begin() + pos);
            sym_reach("removed");
        }
        else
            sym_reach("absent");
        break;
    }
    default:
    {
        auto r = dir.d->get_entry(name, id, type);
        CHECK_MAP(r.has_value() == equal, "lookup finds exactly the present names");
        if (r)
        {
            CHECK_MAP(id_num(id.data()) == ref[pos].id, "lookup reports another id");
            CHECK_MAP((uint32_t)type == ref[pos].type, "lookup reports another type");
            CHECK_MAP(same(std::string(*r), ref[pos].name), "lookup reports another name");
            sym_reach("found");
        }
        else
            sym_reach("notfound");
    }
    }
}
// a symbolic name around entry number k of the reference list: equal to it, just before, just after
static std::string sym_name(const Store& st, const char* n)
{
    std::string s = sym_bytes(rev() ? 3 : 2, n);
    sym_assume((unsigned char)s[0] != 0);
    sym_assume((unsigned char)s[1] != 0);
    if (rev())
        sym_assume((unsigned char)s[2] != 0);
    if (sym_param("few", 0))
    {
        // from the separator before the chosen leaf up to the one after it
        std::string a = key_name(st.lo ? 2 * st.lo - 1 : 0), b = key_name(2 * st.hi + 2);
        auto num = [](const std::string& x) { return (unsigned char)x[0] << 8 | (unsigned char)x[1]; };
        sym_assume(rev() ? num(s) <= num(a) : num(s) >= num(a));
        sym_assume(rev() ? num(s) >= num(b) : num(s) <= num(b));
    }
    if (sym_param("sparse", 0))
    {
        // the ends of the chosen leaf, one in the middle, the places between
        unsigned k[] = {2 * st.lo, 2 * st.lo + 1, 2 * st.lo + 2, 2 * (st.lo + st.hi) / 2 + 1, 2 * st.hi - 1, 2 * st.hi, 2 * st.hi + 1};
        bool any = false;
        for (unsigned x : k)
        {
            std::string w = key_name(x);
            any |= (s[0] == w[0]) & (s[1] == w[1]);
        }
        sym_assume(any);
    }
    return s;
}
static void iterate(Dir& dir, const std::vector<Ent>& ref)
{
    if (pages_only())
        return;
    std::vector<int> seen(ref.size(), 0);
    size_t n = 0;
    dir.d->iterate_over_entries(
        [&](const std::string& name, const id_type& id, int type)
        {
            ++n;
            for (size_t i = 0; i < ref.size(); ++i)
                if (ref[i].id == id_num(id.data()))
                {
                    CHECK(!seen[i], "iteration lists an entry twice");
                    seen[i] = 1;
                    CHECK(same(name, ref[i].name) && (uint32_t)type == ref[i].type, "iteration lists a wrong entry");
                }
        });
    CHECK(n == ref.size(), "iteration lists every entry once");
    for (int s : seen)
        CHECK(s, "iteration omits an entry");
    CHECK(dir.d->empty() == ref.empty(), "emptiness");
}
// Sizes 6 and 13 are the minimum and the maximum of a node. With few=1 the shapes are limited to those at which the
// operation changes the structure, and the name to the neighbourhood of the chosen leaf.
static unsigned size_of(const char* what)
{
    static const unsigned ALL[] = {6, 7, 12, 13}, ADD[] = {12, 13}, DEL[] = {6, 7};
    if (!sym_param("few", 0))
        return pick(ALL, what);
    return sym_param("op", 0) == 0 ? pick(ADD, what) : pick(DEL, what);
}
static unsigned sibling_size()
{
    // 7: the most that can be merged; 8: the least that cannot
    static const unsigned ALL[] = {6, 7, 8, 13}, DEL[] = {6, 7, 8};
    if (!sym_param("few", 0))
        return pick(ALL, "sibling");
    return sym_param("op", 0) == 0 ? 6 : pick(DEL, "sibling");
}
static unsigned root_size()
{
    static const unsigned R[] = {1, 2, 13}, ADD[] = {1, 13}, DEL[] = {1, 2};
    if (!sym_param("few", 0))
        return pick(R, "root");
    return sym_param("op", 0) == 0 ? pick(ADD, "root") : pick(DEL, "root");
}
// the root has r entries; the leaf at place p and one neighbour have chosen sizes, the others 6
static void build2(Store& s)
{
    if (sym_param("mini", 0))
    {
        std::vector<uint32_t> k;
        unsigned sizes = (unsigned)sym_choice(0, 2, "sizes");
        k.push_back(s.leaf(sizes == 2 ? 7 : 6));    // 6 and 7 merge into a full node
        std::vector<Ent> e{s.next_ent()};
        s.lo = s.nextkey;
        k.push_back(s.leaf(sizes == 1 ? 13 : 6));
        s.hi = s.nextkey;
        s.root = s.new_page();
        s.put_node(s.root, e, k);
        return s.link_free();
    }
    unsigned r = root_size(), p = sym_choice(0, 2, "place"), a = size_of("leafsize"), b = sibling_size();
    unsigned fr = sym_choice(0, 3, "free");
    p = p == 0 ? 0 : p == 1 ? r / 2 : r;
    std::vector<uint32_t> kids;
    std::vector<Ent> es;
    for (unsigned i = 0; i <= r; ++i)
    {
        bool sib = i == p + 1 || (p == r && i + 1 == p);
        unsigned n = i == p ? a : sib ? b : 6;
        if (i < fr)
            s.add_free();
        if (i == p)
            s.lo = s.nextkey;
        kids.push_back(s.leaf(n));
        if (i == p)
            s.hi = s.nextkey;
        if (i < r)
            es.push_back(s.next_ent());
    }
    for (unsigned i = r + 1; i < fr; ++i)
        s.add_free();
    s.root = s.new_page();
    s.put_node(s.root, es, kids);
    s.link_free();
}
static void build1(Store& s)
{
    unsigned n = sym_choice(0, 13, "n"), fr = sym_choice(0, 2, "free");
    if (fr)
        s.add_free();
    if (sym_choice(0, 1, "hasroot") || n)
        s.root = s.leaf(n);
    if (fr == 2)
        s.add_free();
    s.hi = s.nextkey;
    s.link_free();
}
// three levels: root with r entries; the inner node at place p has size a, its neighbour b, the leaf below c, others 6
static void build3(Store& s)
{
    static const unsigned IN[] = {6, 7, 13}, LF[] = {6, 7, 13};
    bool few = sym_param("few", 0), add = sym_param("op", 0) == 0;
    unsigned r = root_size(), p = sym_choice(0, 1, "place") ? r : 0;
    unsigned a = few ? (add ? 13 : size_of("inner")) : pick(IN, "inner"), b = sibling_size();
    unsigned c = few ? (add ? 13 : 6) : pick(LF, "leaf"), q = sym_choice(0, 2, "leafplace");
    unsigned fr = sym_choice(0, 1, "free");
    std::vector<uint32_t> kids;
    std::vector<Ent> es;
    for (unsigned i = 0; i <= r; ++i)
    {
        unsigned n = i == p ? a : (i == p + 1 || (p == r && i + 1 == p)) ? b : 6;
        unsigned at = q == 0 ? 0 : q == 1 ? n / 2 : n;
        std::vector<uint32_t> k2;
        std::vector<Ent> e2;
        for (unsigned l = 0; l <= n; ++l)
        {
            if (i == p && l == at)
                s.lo = s.nextkey;
            k2.push_back(s.leaf(i == p && l == at ? c : 6));
            if (i == p && l == at)
                s.hi = s.nextkey;
            if (l < n)
                e2.push_back(s.next_ent());
        }
        uint32_t pg = s.new_page();
        s.put_node(pg, e2, k2);
        kids.push_back(pg);
        if (fr && i == 0)
            s.add_free();
        if (i < r)
            es.push_back(s.next_ent());
    }
    s.root = s.new_page();
    s.put_node(s.root, es, kids);
    s.link_free();
}
static void build(Store& s)
{
    switch (sym_param("levels", 2))
    {
    case 1:
        return build1(s);
    case 2:
        return build2(s);
    default:
        return build3(s);
    }
}
// visits every node, which brings it into the cache or compares it with its cached copy
static void visit(Dir& dir, const std::vector<Ent>& ref, const char* what)
{
    size_t n = 0, sum = 0, want = 0;
    dir.d->iterate_over_entries(
        [&](const std::string&, const id_type& id, int)
        {
            ++n;
            sum += id_num(id.data());
        });
    for (auto& e : ref)
        want += e.id;
    CHECK_MAP(n == ref.size() && sum == want, what);
}
// one operation with an arbitrary name on an arbitrary valid tree, none or all of which is cached
extern "C" void h_step()
{
    Store s;
    build(s);
    Dir dir(s);
    std::vector<Ent> ref = s.ref;
    bool warm = sym_param("warm", 0) && sym_fork_flag("warm");
    if (warm)
        visit(dir, ref, "listing before the operation");
    do_op(dir, ref, (unsigned)sym_param("op", 0), sym_name(s, "name"), 5000);
    if (warm)
        visit(dir, ref, "listing after the operation");
    if (sym_param("iterate", 0))
        iterate(dir, ref);
    judge(dir, ref, "entries after the operation");
}
// several operations through one cached object, then everything again through a fresh one
extern "C" void h_seq()
{
    Store s;
    build(s);
    Dir dir(s);
    std::vector<Ent> ref = s.ref;
    unsigned n = (unsigned)sym_param("ops", 2);
    for (unsigned i = 0; i < n; ++i)
    {
        do_op(dir, ref, (unsigned)sym_choice(0, 1, "op"), sym_name(s, "name"), 5000 + i);
        if (i + 1 < n && sym_fork_flag("flush"))
            dir.d->subflush();
    }
    iterate(dir, ref);
    judge(dir, ref, "entries after the operations");
    uint32_t r = dir.d->get_root_page(), f = dir.d->get_start_free_page(), k = dir.d->get_num_free_page();
    dir.open(r, f, k);
    iterate(dir, ref);
    judge(dir, ref, "entries after reloading");
}
// names of every length up to the limit and beyond, sharing prefixes with stored ones
extern "C" void h_names()
{
    Store s;
    static const size_t L[] = {1, 2, 3, 254, 255};
    std::vector<Ent> es;
    for (size_t l : L)
    {
        Ent e{std::string(l, 'a'), (unsigned)l, 8};
        s.ref.push_back(e);
        es.push_back(e);
    }
    s.root = s.new_page();
    s.put_node(s.root, es, {});
    s.link_free();
    Dir dir(s);
    std::vector<Ent> ref = s.ref;
    static const size_t N[] = {1, 2, 3, 4, 253, 254, 255, 256, 257, 600};
    size_t n = pick(N, "length");
    std::string name(n - 1, 'a');
    name += sym_bytes(1, "last");
    sym_assume(name[n - 1] != 0);
    unsigned op = (unsigned)sym_choice(0, 2, "op");
    if (n > 255)
    {
        id_type id;
        int type;
        bool bad = false;
        try
        {
            if (op == 0)
                dir.d->add_entry(name, make_id(9), 8);
            else if (op == 1)
                CHECK(!dir.d->remove_entry(name, id, type), "removed a name that is too long");
            else
                CHECK(!dir.d->get_entry(name, id, type), "found a name that is too long");
        }
        catch (const ExceptionBase&)
        {
            bad = true;
        }
        CHECK(bad || op, "a name that is too long was accepted");
        sym_reach("toolong");
    }
    else
        do_op(dir, ref, op, name, 7000);
    judge(dir, ref, "entries after the operation");
}

// A directory whose storage is so large that the new page's number needs more than 20 bits: only the positions and the
// bytes written matter, not what lies between.
class HugeStream : public StreamBase
{
public:
    uint64_t n = 0;
    struct W
    {
        uint64_t off, len;
        uint32_t flag, next, prev;
    };
    std::vector<W> writes;
    uint32_t free_next = NONE;
    length_type read(void* output, offset_type offset, length_type length) override
    {
        CHECK(length == PG, "access to a part of a page");
        memset(output, 0, length);
        le32((unsigned char*)output + 4, free_next);
        le32((unsigned char*)output + 8, NONE);
        reads.push_back(offset);
        return length;
    }
    std::vector<uint64_t> reads;
    void write(const void* input, offset_type offset, length_type length) override
    {
        CHECK(length == PG, "access to a part of a page");
        const unsigned char* p = (const unsigned char*)input;
        writes.push_back(W{offset, length, rd32(p), rd32(p + 4), rd32(p + 8)});
    }
    length_type size() const override { return n; }
    void flush() override {}
    void resize(length_type k) override { n = k; }
    bool is_sparse() const noexcept override { return true; }
};
extern "C" void h_huge()
{
    Store s;
    Dir dir(s);
    auto h = std::make_shared<HugeStream>();
    dir.d->m_stream = h;
    uint64_t pages = sym_range(0, 0xfffffff0u, "pages");
    h->n = pages * PG;
    switch (sym_choice(0, 2, "op"))
    {
    case 0:    // a new page at the end
    {
        uint32_t r = dir.d->allocate_page();
        CHECK(r == pages, "new page is not the one after the last");
        CHECK(h->n == (pages + 1) * PG, "storage grows by one page");
        BtreeNode n(NONE, r);
        dir.d->write_node(r, n);
        CHECK(h->writes.size() == 1 && h->writes[0].off == pages * PG, "node written over another page");
        sym_reach("append");
        break;
    }
    case 1:    // releasing a page
    {
        uint32_t r = (uint32_t)sym_range(0, 0xfffffff0u, "page");
        sym_assume(r < pages);
        dir.d->deallocate_page(r);
        if (sym_conc(h->n == uint64_t(r) * PG && dir.d->get_num_free_page() == 0))
        {
            // the last page may be cut off instead
            CHECK(r == pages - 1, "pages in use were cut off");
            return;
        }
        CHECK(dir.d->get_start_free_page() == r && dir.d->get_num_free_page() == 1, "released page is not on the free list");
        CHECK(h->n == pages * PG, "storage shrank");
        CHECK(h->writes.size() == 1 && h->writes[0].off == uint64_t(r) * PG, "free page written over another page");
        sym_reach("release");
        break;
    }
    default:    // reusing one
    {
        uint32_t r = (uint32_t)sym_range(0, 0xfffffff0u, "page"), nx = (uint32_t)sym_range(0, 0xfffffff0u, "next");
        sym_assume(r < pages && nx < pages);
        sym_assume(r != nx);
        dir.d->set_start_free_page(r);
        dir.d->set_num_free_page(2);
        h->free_next = nx;
        CHECK(dir.d->allocate_page() == r, "allocation does not take the head of the free list");
        CHECK(dir.d->get_start_free_page() == nx && dir.d->get_num_free_page() == 1, "free list after allocation");
        CHECK(h->reads[0] == uint64_t(r) * PG, "another page was read");
        CHECK(h->writes.size() == 1 && h->writes[0].off == uint64_t(nx) * PG && h->writes[0].prev == NONE && h->writes[0].flag == 0,
              "next free page becomes the head");
        sym_reach("reuse");
    }
    }
}

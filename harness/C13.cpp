// Directory pages: what is stored in a page is what is read back from it; arbitrary page content is refused or yields
// only what lies within the page.
#include "os.h"
#include "btree_dir.h"
using namespace model;
static const unsigned PG = 4096, ENT = 256 + 32 + 4;
// A node with every combination of numbers of children and entries that the directory can produce; contents symbolic.
extern "C" void h_round()
{
    unsigned ne = (unsigned)sym_choice(0, 13, "entries"), leaf = (unsigned)sym_choice(0, 1, "leaf");
    unsigned nk = leaf ? 0 : ne + 1;
    BtreeNode n(3, 7);
    std::vector<uint32_t> kids;
    struct E
    {
        std::string name, id;
        uint32_t type;
    };
    std::vector<E> es;
    for (unsigned i = 0; i < nk; ++i)
    {
        kids.push_back(sym_u32("child"));
        n.mutable_children().push_back(kids.back());
    }
    for (unsigned i = 0; i < ne; ++i)
    {
        static const size_t L[] = {1, 2, 17, 254, 255};
        E e;
        // lengths vary along the page, every length meets every place within two runs of i
        size_t len = L[(i + sym_param("shift", 0)) % 5];
        if (i == 0)
            len = pick(L, "length");
        e.name = std::string(len, 'n');
        for (size_t at : {size_t(0), len / 2, len - 1})
        {
            sym_make(&e.name[at], 1, "char");
            sym_assume(e.name[at] != 0);
        }
        e.id = sym_bytes(32, "id");
        e.type = sym_u32("type");
        es.push_back(e);
        DirEntry d;
        d.filename = e.name;
        memcpy(d.id.data(), e.id.data(), 32);
        d.type = e.type;
        n.mutable_entries().push_back(d);
    }
    std::vector<byte> buf(PG, (byte)0xee);
    n.to_buffer(buf.data(), PG);
    BtreeNode m(3, 7);
    CHECK(m.from_buffer(buf.data(), PG), "a written page is not recognised");
    CHECK(m.children().size() == nk, "number of children");
    for (unsigned i = 0; i < nk; ++i)
        CHECK(m.children()[i] == kids[i], "child page number");
    CHECK(m.entries().size() == ne, "number of entries");
    for (unsigned i = 0; i < ne; ++i)
    {
        CHECK(same(m.entries()[i].filename, es[i].name), "entry name");
        CHECK(sym_eq(m.entries()[i].id.data(), es[i].id.data(), 32), "entry id");
        CHECK(m.entries()[i].type == es[i].type, "entry type");
    }
    sym_reach("round");
}
// A page with arbitrary flag and counts of any relation to its size; the fields of the first or the last entry and of
// three children are free, names are either empty or unterminated beyond their free bytes.
extern "C" void h_hostile()
{
    auto* page = new byte[PG];
    unsigned fill = (unsigned)sym_choice(0, 1, "fill");
    memset(page, fill ? 'f' : 0, PG);
    sym_make(page, 4, "flag");
    // counts: all small ones, the largest that fit in a page, the first that do not, and the largest of all
    static const unsigned NK[] = {0, 1, 2, 7, 8, 13, 14, 15, 16, 73, 74, 75, 1021, 1022, 1023, 0x4000, 0xffff};
    unsigned nk = pick(NK, "children");
    unsigned ne = (unsigned)sym_choice(0, 17, "entries");
    if (ne == 16)
        ne = 0x100;
    if (ne == 17)
        ne = 0xffff;
    page[4] = (byte)nk, page[5] = (byte)(nk >> 8), page[6] = (byte)ne, page[7] = (byte)(ne >> 8);
    for (unsigned i : {0u, nk / 2, nk - 1})
        if (i < nk && 8 + 4 * i + 4 <= PG)
            sym_make(page + 8 + 4 * i, 4, "child");
    unsigned chosen = sym_choice(0, 1, "which") ? std::min(ne, 14u) - 1 : 0;
    if (chosen < ne)
        for (unsigned f : {0u, 1u, 255u, 256u, 287u, 288u, 291u})
        {
            unsigned at = 8 + 4 * nk + ENT * chosen + f;
            if (at < PG)
                sym_make(page + at, 1, "byte");
        }
    BtreeNode n(1, 2);
    bool live = false;
    try
    {
        live = n.from_buffer(page, PG);
    }
    catch (const ExceptionBase&)
    {
        sym_reach("refused");
        delete[] page;
        return;
    }
    if (!live)
    {
        CHECK((page[0] | page[1] | page[2] | page[3]) == 0, "a marked page was taken for a free one");
        CHECK(n.children().empty() && n.entries().empty(), "a free page yields entries");
        sym_reach("free");
        delete[] page;
        return;
    }
    unsigned k = n.children().size(), e = n.entries().size();
    CHECK(k == nk && e == ne, "counts differ from the stored ones");
    CHECK(8 + 4 * k + ENT * e <= PG, "entries lie beyond the page");
    if (e)
    {
        const byte* p = page + 8 + 4 * k + ENT * chosen;
        const DirEntry& d = n.entries()[chosen];
        CHECK(d.filename.size() <= 255, "name longer than the limit");
        CHECK(d.filename.empty() || sym_eq(d.filename.data(), p, d.filename.size()), "name differs from the page");
        CHECK(d.filename.size() == 255 || p[d.filename.size()] == 0, "name cut short");
        CHECK(sym_eq(d.id.data(), p + 256, 32), "id differs from the page");
        CHECK(sym_eq(&d.type, p + 288, 4), "type differs from the page");
    }
    for (unsigned i = 0; i < k; ++i)
        CHECK(sym_eq(&n.children()[i], page + 8 + 4 * i, 4), "child differs from the page");
    sym_reach("parsed");
    delete[] page;
}

#include "model.h"
#include "crypto.h"
#include "far.h"
using namespace model;
struct Full
{
    std::shared_ptr<MemStream> data = std::make_shared<MemStream>(), meta = std::make_shared<MemStream>();
    key_type dk = test_key(7), mk = test_key(50);
    id_type id;
    unsigned bs = sym_param("bs", 4), iv = sym_param("iv", 12), hs = sym_param("hs", 5);
    std::shared_ptr<StreamBase> s;
    std::shared_ptr<HeaderBase> h;
    Full(unsigned char idseed = 1)
    {
        for (size_t i = 0; i < id.size(); ++i)
            id.data()[i] = (unsigned char)(idseed + i);
    }
    void open(bool check = true)
    {
        auto p = make_cryptstream_aes_gcm(data, meta, dk, mk, id, check, bs, iv, hs);
        s = p.first;
        h = p.second;
    }
    void close()
    {
        s.reset();
        h.reset();
    }
};
static void compare(Full& f, const Ref& ref, const std::string& head, const char* what)
{
    CHECK(f.s->size() == ref.d.size(), "reported size is not the plaintext size");
    CHECK(f.data->d.size() == ref.d.size(), "data stream size is not the plaintext size");
    CHECK(same(read_all(*f.s), ref.d), what);
    std::string got(f.hs, '\x33');
    bool ok = f.h->read_header(&got[0], f.hs);
    CHECK(ok, "header lost");
    CHECK(same(got, head), "header differs from what was written");
}
// one operation on an arbitrary reachable file, then flush and reopen with checking on
extern "C" void h_op()
{
    Full f;
    f.data->sparse = f.meta->sparse = sym_fork_flag("sparse");
    unsigned bs = f.bs;
    f.open();
    std::string head = sym_bytes(f.hs, "head");
    f.h->write_header(head.data(), head.size());
    Ref ref;
    static const size_t HS[] = {0, 1, 4, 6, 8}, HP[] = {1, 4, 6, 8};
    size_t S = sym_param("holes", 0) ? pick(HS, "size") : sym_choice(0, 2 * bs + 1, "size");
    if (sym_param("holes", 0))
    {
        f.s->resize(S);
        ref.resize(S);
        size_t p = pick(HP, "hole");
        std::string c = sym_bytes(2, "content");
        f.s->write(c.data(), p, c.size());
        ref.write(c, p);
    }
    else
    {
        std::string c = sym_bytes(S, "content");
        f.s->write(c.data(), 0, S);
        ref.write(c, 0);
    }
    unsigned op = sym_param("op", 0);
    if (sym_fork_flag("stored before"))
    {
        f.s->flush();
        f.close();
        f.open();
    }
    if (op == 0)
    {
        size_t off = sym_choice(0, 3 * bs, "off"), len = sym_choice(0, sym_param("maxlen", 2 * bs + 1), "len");
        std::string data = sym_bytes(len, "data");
        f.s->write(data.data(), off, len);
        ref.write(data, off);
        sym_reach("write");
    }
    else if (op == 1)
    {
        size_t n = sym_choice(0, 3 * bs, "newsize");
        f.s->resize(n);
        ref.resize(n);
        sym_reach("resize");
    }
    else if (op == 2)
    {
        size_t off = sym_choice(0, 3 * bs, "off"), len = sym_choice(0, 3 * bs + 1, "len");
        std::unique_ptr<char[]> buf(new char[len]);
        length_type k = f.s->read(buf.get(), off, len);
        CHECK(same(std::string(buf.get(), k), ref.read(off, len)), "partial read");
        sym_reach("read");
    }
    else
    {
        // rewrite of the header, possibly shorter than its capacity: the rest reads as zero
        size_t n = sym_choice(0, f.hs, "hlen");
        head = sym_bytes(n, "head2");
        f.h->write_header(head.data(), n);
        head.resize(f.hs, '\0');
        std::string part(n, '\x44');
        CHECK(f.h->read_header(&part[0], n), "short header read failed");
        CHECK(same(part, head.substr(0, n)), "short header read");
        CHECK(throws([&] { f.h->write_header("0123456789abcdef0123456789abcdef0123456789", f.hs + 1); }),
              "oversized header accepted");
        char big[64];
        CHECK(throws([&] { f.h->read_header(big, f.hs + 1); }), "oversized header read accepted");
        sym_reach("header");
    }
    compare(f, ref, head, "content after the operation");
    if (sym_fork_flag("headerflush"))
        f.h->flush_header();
    f.s->flush();
    auto keep = f.s;
    f.close();
    f.open();
    keep.reset();
    compare(f, ref, head, "content after reopening");
    // destruction alone must leave an openable file too
    if (op == 0)
    {
        f.s->write("Z", 0, 1);
        ref.write("Z", 0);
        f.close();
        f.open();
        compare(f, ref, head, "content after closing without an explicit flush");
    }
}
extern "C" void h_noheader()
{
    Full f;
    f.open();
    std::string got(f.hs, '\x33');
    CHECK(!f.h->read_header(&got[0], f.hs), "header present in a new file");
    CHECK(f.h->max_header_length() == f.hs, "header capacity");
    std::string c = sym_bytes(3, "c");
    std::string head = sym_bytes(f.hs, "head");
    f.h->write_header(head.data(), f.hs);
    f.s->write(c.data(), 2, 3);
    Ref ref;
    ref.write(c, 2);
    f.close();
    f.open();
    compare(f, ref, head, "new file");
    sym_reach("new");
}

// blocks at any distance: what is stored at one place is read there and nowhere else
extern "C" void h_far()
{
    auto data = std::make_shared<FarStream>(), meta = std::make_shared<FarStream>();
    id_type id;
    memset(id.data(), 3, id.size());
    unsigned bs = 8, hs = 5;
    auto& p = *new auto(make_cryptstream_aes_gcm(data, meta, test_key(7), test_key(50), id, true, bs, 12, hs));    // stays open: its end would authenticate the whole file
    auto& s = *p.first;
    uint64_t max = (1ull << 30) - 3, K = sym_u64("block"), L = sym_u64("other");
    sym_assume(K >= 1 && K <= max && L <= max && L != K && L != K - 1 && L != K + 1);
    std::string head = sym_bytes(hs, "head");
    p.second->write_header(head.data(), hs);
    p.second->flush_header();
    uint64_t sz = (max + 2) * bs;
    s.resize(sz);
    CHECK(s.size() == sz, "size after a resize to a large size");
    CHECK(throws([&] { s.resize((uint64_t)bs << 60); }), "a size beyond the limit accepted");
    CHECK(s.size() == sz, "size after a refused resize");
    static const size_t R[] = {0, 7};
    size_t r = pick(R, "within"), n = 2;
    std::string v = sym_bytes(n, "v"), b(bs * 2, '\x5c'), want(bs * 2, '\0');
    s.write(v.data(), K * bs + r, n);
    want.replace(r, n, v);
    CHECK(s.read(&b[0], K * bs, bs * 2) == bs * 2, "distant block not readable");
    CHECK(same(b, want), "distant block differs");
    b.assign(bs, '\x5c');
    CHECK(s.read(&b[0], L * bs, bs) == bs, "another block not readable");
    CHECK(same(b, std::string(bs, '\0')), "another block changed");
    uint64_t cut = K * bs + r;
    s.resize(cut);
    CHECK(s.size() == cut && s.read(&b[0], cut, bs) == 0, "size after a truncation");
    s.resize(sz);
    b.assign(bs * 2, '\x5c');
    CHECK(s.read(&b[0], K * bs, bs * 2) == bs * 2 && same(b, std::string(bs * 2, '\0')), "cut content returned");
    std::string got(hs, '\x33');
    CHECK(p.second->read_header(&got[0], hs) && same(got, head), "header changed");
    sym_reach("far");
}
// the default block size and lengths of several blocks and more than 64 KiB
extern "C" void h_big()
{
    Full f;
    f.bs = 4096;
    f.iv = 12;
    f.open();
    std::string head = sym_bytes(f.hs, "head");
    f.h->write_header(head.data(), f.hs);
    static const size_t N[] = {1, 4096, 5000, 8192, 65535, 65536, 70000}, O[] = {0, 1, 4095, 4096, 66000};
    size_t n = pick(N, "length"), off = pick(O, "offset");
    std::string v(n, 0);
    for (size_t i = 0; i < n; ++i)
        v[i] = (char)(i * 7 + i / 256 + 1);
    v[0] = (char)sym_u8("first");
    v[n - 1] = (char)sym_u8("last");
    Ref ref;
    f.s->write(v.data(), off, n);
    ref.write(v, off);
    if (sym_fork_flag("cut"))
    {
        size_t k = pick(O, "cut");
        f.s->resize(k);
        ref.resize(k);
    }
    compare(f, ref, head, "content of a large write");
    f.close();
    f.open();
    compare(f, ref, head, "content of a large write after reopening");
    sym_reach("big");
}

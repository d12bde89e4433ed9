#define h_op unused_h_op
#define h_noheader unused_h_noheader
#include "C03.cpp"
struct Built : Full
{
    std::string head, content;
    Built(unsigned char idseed, size_t n, const char* name) : Full(idseed)
    {
        open();
        head = sym_bytes(hs, "head");
        h->write_header(head.data(), hs);
        content = sym_bytes(n, name);
        s->write(content.data(), 0, n);
        // an overwritten block leaves stale ciphertext in the log of an attacker
        s->flush();
        close();
    }
};
static bool try_open(Full& f)
{
    try
    {
        f.open(true);
        return true;
    }
    catch (const std::exception&)
    {
        return false;
    }
}
// any change of any bytes of the metadata stream
extern "C" void h_meta()
{
    size_t n = sym_choice(0, 2 * 4 + 1, "size");
    Built f(1, n, "content");
    auto& d = f.meta->d;
    std::string orig(d.begin(), d.end());
    unsigned mode = sym_choice(0, 2, "mode");
    if (mode == 0)
    {
        // arbitrary bytes over any window
        size_t p = sym_choice(0, d.size() - 1, "pos");
        size_t k = sym_choice(1, 2, "width");
        std::string x = sym_bytes(k, "x");
        for (size_t i = 0; i < k && p + i < d.size(); ++i)
            d[p + i] = (unsigned char)x[i];
        sym_assume(!same(orig, std::string(d.begin(), d.end())));
        sym_reach("bytes");
    }
    else if (mode == 1)
    {
        size_t k = sym_choice(0, d.size() - 1, "trunc");
        d.resize(k);
        bool ok = try_open(f);
        if (k == 0)
            CHECK(!ok, "metadata stream emptied: file opened as if new");
        else
            CHECK(!ok, "truncated metadata stream accepted");
        sym_reach("trunc");
        return;
    }
    else
    {
        std::string x = sym_bytes(sym_choice(1, 3, "extra"), "x");
        for (char c : x)
            d.push_back((unsigned char)c);
        sym_reach("extend");
    }
    CHECK(!try_open(f), "modified metadata stream accepted");
}
// the whole metadata stream replaced by arbitrary content
extern "C" void h_meta_any()
{
    Built f(1, 5, "content");
    size_t n = sym_choice(1, f.meta->d.size() + 1, "n");
    std::string x = sym_bytes(n, "x");
    std::string orig(f.meta->d.begin(), f.meta->d.end());
    sym_assume(!same(orig, x));
    f.meta->d.assign(x.begin(), x.end());
    CHECK(!try_open(f), "arbitrary metadata stream accepted");
    sym_reach("any");
}
// any change of a data block: reads touching it fail, others are unaffected
extern "C" void h_data()
{
    unsigned bs = 4;
    size_t n = sym_choice(1, 2 * bs + 1, "size");
    Built f(1, n, "content");
    size_t b = sym_choice(0, (n - 1) / bs, "block");
    size_t lo = b * bs, hi = std::min<size_t>(lo + bs, n);
    std::string x = sym_bytes(hi - lo, "x");
    std::string orig(f.data->d.begin() + lo, f.data->d.begin() + hi);
    sym_assume(!same(orig, x));
    for (size_t i = lo; i < hi; ++i)
        f.data->d[i] = (unsigned char)x[i - lo];
    CHECK(try_open(f), "file with an altered data block does not open");
    size_t off = sym_choice(0, n - 1, "off"), len = sym_choice(1, n, "len");
    std::string buf(len, '\0');
    length_type k = 0;
    bool failed = throws([&] { k = f.s->read(&buf[0], off, len); });
    bool touches = off < hi && off + len > lo;
    if (touches)
    {
        CHECK(failed, "altered data block read successfully");
        sym_reach("touch");
    }
    else if (!failed)
    {
        CHECK(same(buf.substr(0, k), Ref{f.content}.read(off, len)), "intact block returned wrong content");
        sym_reach("other");
    }
}
// a data block replaced while the file is open is detected as well; growing the last block too
extern "C" void h_data_len()
{
    unsigned bs = 4;
    size_t n = sym_choice(1, 2 * bs + 1, "size");
    Built f(1, n, "content");
    size_t m = sym_choice(0, 3 * bs, "newlen");
    sym_assume(m != n);
    std::string x = sym_bytes(m > n ? m - n : 0, "x");
    f.data->d.resize(m);
    for (size_t i = n; i < m; ++i)
        f.data->d[i] = (unsigned char)x[i - n];
    CHECK(try_open(f), "does not open");
    std::string buf(m + 1, '\0');
    length_type k = 0;
    if (throws([&] { k = f.s->read(&buf[0], 0, m + 1); }))
    {
        sym_reach("rejected");
        return;
    }
    buf.resize(k);
    // what is returned can only be genuine content (whole blocks removed) possibly followed by zeros
    // (whole blocks of zeros appended: a hole)
    for (size_t i = 0; i < k; ++i)
        CHECK(buf[i] == (i < n ? f.content[i] : '\0'), "altered content returned");
    CHECK(k % bs == 0 || k == n || (m > n && n % bs == 0), "partial block accepted");
    sym_reach("accepted");
}
// swapping blocks and streams between files
extern "C" void h_splice()
{
    unsigned bs = 4;
    Built a(1, 2 * bs, "a"), b(100, 2 * bs, "b");
    unsigned mode = sym_choice(0, 3, "mode");
    if (mode == 0)
    {
        std::swap_ranges(a.data->d.begin(), a.data->d.begin() + bs, a.data->d.begin() + bs);
        CHECK(try_open(a), "open");
        std::string buf(2 * bs, '\0');
        CHECK(throws([&] { a.s->read(&buf[0], 0, bs); }), "swapped block 0 accepted");
        CHECK(throws([&] { a.s->read(&buf[0], bs, bs); }), "swapped block 1 accepted");
        sym_reach("swap");
    }
    else if (mode == 1)
    {
        a.meta->d = b.meta->d;
        CHECK(!try_open(a), "metadata stream of another file accepted");
    }
    else if (mode == 2)
    {
        a.data->d = b.data->d;
        CHECK(try_open(a), "open");
        std::string buf(2 * bs, '\0');
        CHECK(throws([&] { a.s->read(&buf[0], 0, 1); }), "data stream of another file accepted");
    }
    else
    {
        a.meta->d = b.meta->d;
        a.data->d = b.data->d;
        CHECK(!try_open(a), "both streams of another file accepted");
        sym_reach("both");
    }
}
// wrong keys
extern "C" void h_key()
{
    Built a(1, 5, "a");
    bool meta = sym_fork_flag("which");
    key_type& k = meta ? a.mk : a.dk;
    size_t p = sym_choice(0, 31, "keybyte");
    unsigned char x = sym_u8("x");
    sym_assume(x != 0);
    k.data()[p] ^= x;
    if (meta)
        CHECK(!try_open(a), "wrong metadata key accepted");
    else
    {
        CHECK(try_open(a), "open");
        std::string buf(5, '\0');
        CHECK(throws([&] { a.s->read(&buf[0], 0, 5); }), "wrong data key accepted");
    }
    sym_reach("key");
}

// many blocks read at once, any of them altered
extern "C" void h_many()
{
    const size_t N = 40, bs = 4;
    Full f;
    f.open();
    std::string content(N * bs, 0), head = sym_bytes(f.hs, "head");
    for (size_t i = 0; i < content.size(); ++i)
        content[i] = (char)(i * 3 + i / 256 + 1);
    f.h->write_header(head.data(), f.hs);
    f.s->write(content.data(), 0, content.size());
    f.s->flush();
    f.close();
    static const size_t B[] = {0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 39}, P[] = {0, 1, 3};
    size_t b = pick(B, "block"), at = b * bs + pick(P, "at");
    unsigned char x = sym_u8("x");
    bool same_ = x == f.data->d[at];
    f.data->d[at] = x;
    CHECK(try_open(f), "file with an altered data block does not open");
    static const size_t S[] = {0, 5, 16}, L[] = {40, 24, 33};
    size_t s = pick(S, "from"), e = s + pick(L, "blocks");
    if (e > N)
        e = N;
    std::string buf((e - s) * bs, '\x11');
    length_type k = 0;
    bool failed = throws([&] { k = f.s->read(&buf[0], s * bs, buf.size()); });
    if (same_ || b < s || b >= e)
        CHECK(!failed && k == buf.size() && same(buf, content.substr(s * bs, buf.size())), "intact blocks not readable");
    else
        CHECK(failed, "altered block read together with others");
    sym_reach(failed ? "rejected" : "accepted");
}
// any byte of a long table of initialization vectors and codes
extern "C" void h_many_meta()
{
    Full f;
    f.open();
    std::string content(200 * 4, 'x'), head(f.hs, 'h');
    f.h->write_header(head.data(), f.hs);
    f.s->write(content.data(), 0, content.size());
    f.s->flush();
    f.close();
    auto& d = f.meta->d;
    CHECK(d.size() > 4096 + 1000, "size of the table");
    size_t n = d.size();
    const size_t P[] = {0, 31, 32, 33, 255, 256, 4095, 4096, 4096 + 31, 4096 + 32, 4096 + 33, n - 1000, n - 1};
    size_t at = pick(P, "at");
    unsigned char x = sym_u8("x");
    sym_assume(x != d[at]);
    d[at] = x;
    CHECK(!try_open(f), "modified metadata stream accepted");
    sym_reach("meta");
}

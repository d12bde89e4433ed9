from plant import plant
FULL = "$FULL"; BASE = "$BASE"
MEM = r'''
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <memory>
#include <stdexcept>
#include <vector>
using namespace securefs;
struct Mem : StreamBase
{
    std::vector<unsigned char> d;
    int fail_at = -1;    // the write at this position fails once
    length_type read(void* o, offset_type off, length_type n) override
    {
        if (off >= d.size())
            return 0;
        n = std::min<length_type>(n, d.size() - off);
        memcpy(o, d.data() + off, n);
        return n;
    }
    void write(const void* i, offset_type off, length_type n) override
    {
        if ((long)off == fail_at)
        {
            fail_at = -1;
            throw std::runtime_error("no space left");
        }
        if (off + n > d.size())
            d.resize(off + n);
        memcpy(d.data() + off, i, n);
    }
    length_type size() const override { return d.size(); }
    void flush() override {}
    void resize(length_type n) override { d.resize(n); }
    bool is_sparse() const noexcept override { return true; }
};
static key_type key()
{
    key_type k;
    for (size_t i = 0; i < k.size(); ++i)
        k.data()[i] = (byte)(i * 37 + 11);
    return k;
}
'''
plant("b14-mac-after-a-failure", "C39",
 [("streams.cpp", "            m_stream->write(hmac.data(), 0, hmac.size());\n            m_stream->flush();\n            is_dirty = false;\n",
   "            is_dirty = false;\n            m_stream->write(hmac.data(), 0, hmac.size());\n            m_stream->flush();\n")],
 '#include "streams.h"\n' + MEM + r'''
int main()
{
    auto m = std::make_shared<Mem>();
    id_type id{};
    {
        auto s = make_stream_hmac(key(), id, m, true);
        s->write("old", 0, 3);
        s->flush();
        s->write("new", 0, 3);
        m->fail_at = 0;
        try
        {
            s->flush();
            return 2;
        }
        catch (const std::exception&)
        {
        }
        s->flush();    // there is space again
    }
    try
    {
        auto s = make_stream_hmac(key(), id, m, true);
        char b[3];
        bool ok = s->read(b, 0, 3) == 3 && !memcmp(b, "new", 3);
        printf("content %s\n", ok ? "kept" : "lost");
        return ok ? 0 : 1;
    }
    catch (const std::exception& e)
    {
        printf("%s\n", e.what());
        return 1;
    }
}
''', BASE, "the write of the authentication code fails and the same file is flushed again later", "the later flush reports success and writes nothing, so the stored file no longer verifies")
plant("b15-block-counter", "C04",
 [("lite_stream.cpp", "            to_little_endian(static_cast<uint32_t>(start_block + i / get_underlying_block_size()),", "            to_little_endian(static_cast<uint32_t>(static_cast<uint16_t>(start_block + i / get_underlying_block_size())),"),
  ("lite_stream.cpp", "                static_cast<std::uint32_t>(i / get_underlying_block_size() + start_block),", "                static_cast<std::uint32_t>(static_cast<std::uint16_t>(i / get_underlying_block_size() + start_block)),")],
 '#include "lite_stream.h"\n' + MEM + r'''
int main()
{
    auto m = std::make_shared<Mem>();
    auto open = [&] { return std::make_unique<lite::AESGCMCryptStream>(m, key(), 32, 12, true, 0, nullptr); };
    const size_t ub = 32 + 12 + 16, K = 5, L = K + 65536;
    std::vector<char> a(32, 'a'), b(32, 'b'), out(32);
    {
        auto s = open();
        s->write(a.data(), K * 32, 32);
        s->write(b.data(), L * 32, 32);
        s->flush();
    }
    {
        auto s = open();
        if (s->read(out.data(), K * 32, 32) != 32 || out != a || s->read(out.data(), L * 32, 32) != 32 || out != b)
            return 2;
    }
    std::swap_ranges(m->d.begin() + 16 + K * ub, m->d.begin() + 16 + K * ub + ub, m->d.begin() + 16 + L * ub);
    try
    {
        auto s = open();
        s->read(out.data(), K * 32, 32);
        printf("moved block accepted\n");
        return 1;
    }
    catch (const std::exception& e)
    {
        printf("%s\n", e.what());
        return 0;
    }
}
''', BASE + " lite_stream.cpp", "two blocks 65536 apart exchanged in the stored file", "a block counts as genuine at another position")
plant("b16-time-of-removal", "C16",
 [("files.h", "        update_mtime_helper();\n        return remove_entry_impl(name, id, type);", "        return remove_entry_impl(name, id, type);")],
 r'''#include "full.h"
int main()
{
    Full f(false, true);
    auto make = [&](const char* p)
    {
        fuse_file_info fi{};
        f.o->vcreate(p, 0644, &fi, &f.ctx);
        f.o->vrelease(p, &fi, &f.ctx);
    };
    f.o->vmkdir("/d", 0755, &f.ctx);
    make("/d/x");
    fuse_timespec t[2]{};
    t[0].tv_sec = t[1].tv_sec = 1000;
    f.o->vutimens("/d", t, &f.ctx);
    fuse_stat st{};
    f.o->vgetattr("/d", &st, &f.ctx);
    if (st.st_mtim.tv_sec != 1000)
        return 2;
    f.o->vunlink("/d/x", &f.ctx);
    f.o->vgetattr("/d", &st, &f.ctx);
    printf("modification time %ld\n", (long)st.st_mtim.tv_sec);
    return st.st_mtim.tv_sec != 1000 ? 0 : 1;
}
''', FULL, "the removal of an entry (not the addition of one), times stored within the file system", "a directory keeps its modification time although an entry was removed")
plant("b17-root-collapse", "C14",
 [("btree_dir.cpp", "        adjust_children_in_cache(n, INVALID_PAGE);\n", "")],
 r'''#include "full.h"
#include <set>
int main()
{
    Full f;
    int bad = 0;
    auto h = f.ft->create_as(Directory::class_type());
    auto& d = *static_cast<Directory*>(h.get());
    d.initialize_empty(0755, 0, 0);
    std::set<std::string> want;
    auto name = [](int i) { return "n" + std::to_string(100 + i); };
    auto add = [&](int i)
    {
        id_type id{};
        id.data()[0] = (byte)i;
        if (!d.add_entry(name(i), id, 8))
            ++bad;
        want.insert(name(i));
    };
    auto remove = [&](int i)
    {
        id_type id{};
        int type;
        if (!d.remove_entry(name(i), id, type))
            ++bad;
        want.erase(name(i));
    };
    try
    {
        for (int i = 0; i < 14; ++i)
            add(i * 2);
        remove(0);    // one level again
        remove(2);
        for (int i = 0; i < 9; ++i)
            add(i * 2 + 1);
        std::set<std::string> got;
        d.iterate_over_entries([&](const std::string& n, const id_type&, int) { return got.insert(n), true; });
        if (got != want)
            ++bad;
        d.flush();
    }
    catch (const std::exception& e)
    {
        printf("%s\n", e.what());
        ++bad;
    }
    h.reset();
    printf("%d errors\n", bad);
    fflush(stdout);
    (void)!system(("rm -rf '" + f.dir + "'").c_str());
    _exit(bad ? 1 : 0);
}
''', FULL, "a directory shrinks to one level and grows to two again before it is flushed", "entries are lost or the program ends")
plant("b18-stale-mac", "C03",
 [("streams.cpp", "            m_stream->resize(len + hmac_length);\n            is_dirty = true;\n", "            m_stream->resize(len + hmac_length);\n")],
 r'''#include "full.h"
int main()
{
    Full f;
    fuse_file_info fi{};
    f.o->vcreate("/x", 0644, &fi, &f.ctx);
    std::string v(8192, 'x');
    f.o->vwrite("/x", v.data(), v.size(), 0, &fi, &f.ctx);
    f.o->vrelease("/x", &fi, &f.ctx);
    f.remount();
    int rc = Full::rc([&] { return f.o->vtruncate("/x", 4096, &f.ctx); });
    if (rc != 0)
        return 2;
    f.remount();
    fi = {};
    std::string b(8192, 0);
    rc = Full::rc(
        [&]
        {
            f.o->vopen("/x", &fi, &f.ctx);
            int n = f.o->vread("/x", &b[0], 8192, 0, &fi, &f.ctx);
            f.o->vrelease("/x", &fi, &f.ctx);
            return n;
        });
    printf("read %d\n", rc);
    return rc == 4096 && b.substr(0, 4096) == v.substr(0, 4096) ? 0 : 1;
}
''', FULL, "a truncation to a multiple of the block size of a file which is not written to afterwards", "the file can no longer be opened")

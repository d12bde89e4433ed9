// Large offsets through the operations of the lite format.
#include "lite_fs.h"
#include "ops_far.h"
#include "open_flags.h"
extern "C" void h_far()
{
    auto& f = *new LiteFs(PLAIN);
    fuse_file_info fi{};
    CHECK(LiteFs::rc([&] { return f.o->vcreate("/f", 0644, &fi, &f.ctx); }) == 0, "create");
    make_far(mos::fs().root->kids.at(0).second);
    far_ops(f, "/f", fi, (1ull << 31) - 4, 64);
}
extern "C" void h_open()
{
    LiteFs f(PLAIN);
    open_flags(f);
}
extern "C" void h_moved()
{
    LiteFs f(sym_fork_flag("plain") ? PLAIN : MODERN, 4);
    open_moved(f);
}

// Attributes through the operations of the full format.
#include "full_fs.h"
#include "attr_ops.h"
extern "C" void h_ops()
{
    store_times() = sym_fork_flag("store times");
    FullFs f(sym_param("legacy", 0));
    attr_ops(f, true, [&] { f.remount(); });
}

// Files opened in every way, through the operations of the full format.
#include "full_fs.h"
#include "open_flags.h"
extern "C" void h_open()
{
    FullFs f(sym_fork_flag("legacy"));
    open_flags(f);
}
extern "C" void h_moved()
{
    FullFs f(sym_fork_flag("legacy"));
    open_moved(f);
}

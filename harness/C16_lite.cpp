// Attributes through the operations of the lite format.
#include "lite_fs.h"
#include "attr_ops.h"
extern "C" void h_ops()
{
    LiteFs f(sym_fork_flag("plain") ? PLAIN : MODERN);
    attr_ops(f, false, [] {});
}

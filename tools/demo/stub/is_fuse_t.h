#pragma once
namespace securefs
{
inline constexpr bool is_fuse_t() { return false; }
}

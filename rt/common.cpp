// Definitions shared by all harnesses: logger without output, clock hook.
#include "platform.h"
#include "logger.h"
#include "sym.h"
#include <absl/time/clock.h>
namespace securefs
{
std::unique_ptr<Logger> __attribute__((weak)) global_logger;
__attribute__((weak)) Logger::~Logger() {}
__attribute__((weak)) void
Logger::log_v2(LoggingLevel, const char*, int, absl::FunctionRef<void(std::FILE*)>)
{
}
}    // namespace securefs
namespace absl
{
__attribute__((weak)) Time sym_now_hook()
{
    static int64_t t = 1700000000;
    return Time((__int128)(t++) * 1000000000);
}
}    // namespace absl

// Linked into the monitored build of the language server: turns boost assertions into a visible abort.
#include <cstdio>
#include <cstdlib>
namespace boost {
void assertion_failed(char const* expr, char const* function, char const* file, long line)
{
    std::fprintf(stderr, "MONITOR: boost assertion failed: %s in %s at %s:%ld\n", expr, function, file, line);
    std::abort();
}
void assertion_failed_msg(char const* expr, char const* msg, char const* function, char const* file, long line)
{
    std::fprintf(stderr, "MONITOR: boost assertion failed: %s (%s) in %s at %s:%ld\n", expr, msg, function, file, line);
    std::abort();
}
} // namespace boost

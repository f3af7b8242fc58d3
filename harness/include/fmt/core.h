// The project calls fmt::throw_format_error (public since fmt 10). apt's fmt 9.1 has the same function
// as fmt::detail::throw_format_error: make it visible under the newer name. Everything else is apt's fmt.
#include_next <fmt/core.h>
#ifndef VP_FMT_COMPAT
#define VP_FMT_COMPAT
#if FMT_VERSION < 100000
namespace fmt
{
    using detail::throw_format_error;
}
#endif
#endif

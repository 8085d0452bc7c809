// The verifier reads xtypes_assert(condition, message...) as "if the condition is false, throw std::runtime_error", which is what the real
// macro does in the build under test (NDEBUG + XTYPES_EXCEPTIONS). Dropped: the streamed message text. Everything else of Assert.hpp is kept.
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <xtypes/Assert.hpp>
extern "C" [[noreturn]] void __xt_throw();
#undef xtypes_assert
#define xtypes_assert(...) XTA_FIRST(__VA_ARGS__, 0)
#define XTA_FIRST(c, ...) { if(!(c)) __xt_throw(); }

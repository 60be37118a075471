// Force-included in every translation unit of the monitored build: library
// assertions are recorded as observable events instead of only killing the
// process.
#ifndef VH_ASSERT_HPP_
#define VH_ASSERT_HPP_
#include <sstream>
#include <string>
#ifdef VH_TSAN
// the real file only sees the sanitizer macros when instrumented
#endif
// Reports a failed assertion; throws vh_assert_error when the harness expects
// the operation to be rejected, otherwise records the failure and ends the run.
void vh_assert_failed(const char *expr, const char *file, int line,
                      const std::string &msg);
struct vh_assert_error {
  std::string what;
};
template <typename T>
inline void vh_assert(const char *expr, bool ok, const char *file, int line,
                      T &&msg) {
  if (!ok) {
    std::ostringstream ss;
    ss << msg;
    vh_assert_failed(expr, file, line, ss.str());
  }
}
#endif

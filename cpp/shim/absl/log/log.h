// Stand-in for Abseil's logging, which the installed Abseil does not have.
// A fatal message ends the process with status 97.
#ifndef SHIM_ABSL_LOG_LOG_H_
#define SHIM_ABSL_LOG_LOG_H_

#include <fst/log.h>
#include <unistd.h>

#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>

namespace shim {

class Message {
 public:
  Message(const char *severity, const char *file, int line)
      : fatal_(!std::strcmp(severity, "FATAL") ||
               !std::strcmp(severity, "QFATAL")) {
    stream_ << severity << " " << file << ":" << line << ": ";
  }
  ~Message() {
    std::cerr << stream_.str() << std::endl;
    if (fatal_) {
      std::cout.flush();
      _exit(97);
    }
  }
  std::ostream &stream() { return stream_; }

 private:
  std::ostringstream stream_;
  bool fatal_;
};

struct Voidify {
  void operator&(std::ostream &) const {}
};

}  // namespace shim

#undef LOG
#undef VLOG
#undef CHECK
#undef CHECK_EQ
#undef CHECK_LT
#undef CHECK_GT
#undef CHECK_LE
#undef CHECK_GE
#undef CHECK_NE
#define LOG(s) ::shim::Message(#s, __FILE__, __LINE__).stream()
#define LOG_IF(s, c) !(c) ? (void)0 : ::shim::Voidify() & LOG(s)
#define LOG_FIRST_N(s, n) LOG(s)
#define VLOG(n) true ? (void)0 : ::shim::Voidify() & LOG(INFO)
#define VLOG_IS_ON(n) false
#define SHIM_CHECK(c, text) \
  (c) ? (void)0 : ::shim::Voidify() & LOG(FATAL) << "Check failed: " text " "
#define CHECK(c) SHIM_CHECK(c, #c)
#define CHECK_EQ(a, b) SHIM_CHECK((a) == (b), #a " == " #b)
#define CHECK_NE(a, b) SHIM_CHECK((a) != (b), #a " != " #b)
#define CHECK_LT(a, b) SHIM_CHECK((a) < (b), #a " < " #b)
#define CHECK_LE(a, b) SHIM_CHECK((a) <= (b), #a " <= " #b)
#define CHECK_GT(a, b) SHIM_CHECK((a) > (b), #a " > " #b)
#define CHECK_GE(a, b) SHIM_CHECK((a) >= (b), #a " >= " #b)
#define QCHECK CHECK
#define QCHECK_EQ CHECK_EQ
#define QCHECK_NE CHECK_NE
#define QCHECK_LT CHECK_LT
#define QCHECK_LE CHECK_LE
#define QCHECK_GT CHECK_GT
#define QCHECK_GE CHECK_GE
#define CHECK_OK(s) CHECK((s).ok())
#define QCHECK_OK(s) CHECK((s).ok())

#endif  // SHIM_ABSL_LOG_LOG_H_

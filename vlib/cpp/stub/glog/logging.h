// A stand-in for glog: fatal messages abort, the rest goes nowhere.
#pragma once
#include <cstdlib>
#include <iostream>
#include <sstream>
namespace google {
inline void InitGoogleLogging(const char*) {}
enum { INFO = 0, WARNING = 1, ERROR = 2, FATAL = 3 };
struct Message {
  int level;
  std::ostringstream text;
  explicit Message(int l) : level(l) {}
  ~Message() {
    if (level == FATAL) {
      std::cerr << "FATAL " << text.str() << std::endl;
      std::abort();
    }
  }
  std::ostream& stream() { return text; }
};
struct Voidify {
  void operator&(std::ostream&) {}
};
}  // namespace google
#define LOG(level) ::google::Message(::google::level).stream()
#define LOG_IF(level, c) !(c) ? (void)0 : ::google::Voidify() & LOG(level)
#define VLOG(n) LOG_IF(INFO, false)
#define DLOG(level) LOG(level)
#define CHECK(c) LOG_IF(FATAL, !(c)) << "CHECK failed: " #c " "
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_NOTNULL(p) (p)
#define DCHECK CHECK
#define DCHECK_EQ CHECK_EQ
#define DCHECK_NE CHECK_NE
#define DCHECK_LE CHECK_LE
#define DCHECK_LT CHECK_LT
#define DCHECK_GE CHECK_GE
#define DCHECK_GT CHECK_GT

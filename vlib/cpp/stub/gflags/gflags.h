// A stand-in for gflags: string and bool flags, --name=value, --name value and -name.
#pragma once
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <string>

namespace gflags {
inline std::map<std::string, std::string*>& Strings() {
  static std::map<std::string, std::string*> m;
  return m;
}
inline std::map<std::string, bool*>& Bools() {
  static std::map<std::string, bool*> m;
  return m;
}
struct Register {
  Register(const char* n, std::string* v) { Strings()[n] = v; }
  Register(const char* n, bool* v) { Bools()[n] = v; }
};
inline void ParseCommandLineFlags(int* argc, char*** argv, bool) {
  for (int i = 1; i < *argc; ++i) {
    std::string a = (*argv)[i];
    if (a.empty() || a[0] != '-') continue;
    a = a.substr(a.compare(0, 2, "--") == 0 ? 2 : 1);
    size_t eq = a.find('=');
    std::string name = a.substr(0, eq);
    bool given = eq != std::string::npos;
    std::string value = given ? a.substr(eq + 1) : "";
    if (Bools().count(name)) {
      *Bools()[name] = !given || value == "true" || value == "1";
    } else if (Strings().count(name)) {
      if (!given && i + 1 < *argc) value = (*argv)[++i];
      *Strings()[name] = value;
    } else {
      std::cerr << "ERROR: unknown command line flag '" << name << "'" << std::endl;
      std::exit(1);
    }
  }
}
inline void SetUsageMessage(const std::string&) {}
inline void ShutDownCommandLineFlags() {}
}  // namespace gflags
namespace google {
using gflags::ParseCommandLineFlags;
using gflags::SetUsageMessage;
using gflags::ShutDownCommandLineFlags;
}  // namespace google
#define DEFINE_string(n, d, help)  \
  std::string FLAGS_##n = d;       \
  static gflags::Register flag_##n(#n, &FLAGS_##n)
#define DEFINE_bool(n, d, help) \
  bool FLAGS_##n = d;           \
  static gflags::Register flag_##n(#n, &FLAGS_##n)
#define DECLARE_string(n) extern std::string FLAGS_##n
#define DECLARE_bool(n) extern bool FLAGS_##n

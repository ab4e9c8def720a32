// The transducers of the command line tool (checks/r03.py): a file, named by WETEXT_ANSWERS, of
// lines "path input output" in hex; what is asked goes to the file named by WETEXT_ASKED.
#include <cstdlib>
#include <fstream>
#include <string>

#include "fst/fstlib.h"

static std::string Hex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string o = "x";
  for (unsigned char c : s) {
    o += d[c >> 4];
    o += d[c & 15];
  }
  return o;
}

bool stub::Ask(const std::string& path, const std::string& input, std::string* output) {
  std::string p = Hex(path), t = Hex(input), a, b, c;
  std::ofstream(std::getenv("WETEXT_ASKED"), std::ios::app) << p << " " << t << "\n";
  std::ifstream table(std::getenv("WETEXT_ANSWERS"));
  while (table >> a >> b >> c) {
    if (a == p && b == t) {
      output->clear();
      for (size_t i = 1; i + 1 < c.size(); i += 2) *output += static_cast<char>(std::stoi(c.substr(i, 2), nullptr, 16));
      return true;
    }
  }
  return false;
}

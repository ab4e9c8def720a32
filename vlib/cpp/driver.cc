// Runs the C++ runtime for checks/r01.py and r02.py over a line protocol (fields in hex):
//   P type stream       token parser        -> R output | E message
//   O tagger verbalizer create a processor  -> R 1 | R 0
//   C                   destroy it          -> R
//   T/V/N text          tag/verbalize/normalize through the C interface -> R output | E message
//   S text              split, length, trims -> R length ltrim rtrim trim chars...
//   D text delim        split by delim      -> R pieces...
// While a command runs, "Q path input" asks for a transducer's output: "A output" or "N".
#include <cstdio>
#include <exception>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include "processor/wetext_processor.h"
#include "processor/wetext_processor_c_api.h"
#include "processor/wetext_token_parser.h"
#include "utils/wetext_string.h"

static std::string Hex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string o = "x";
  for (unsigned char c : s) {
    o += d[c >> 4];
    o += d[c & 15];
  }
  return o;
}

static std::string Unhex(const std::string& s) {
  std::string o;
  for (size_t i = 1; i + 1 < s.size(); i += 2) o += static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16));
  return o;
}

bool stub::Ask(const std::string& path, const std::string& input, std::string* output) {
  std::cout << "Q " << Hex(path) << " " << Hex(input) << std::endl;
  std::string line;
  if (!std::getline(std::cin, line)) std::exit(3);
  if (line.empty() || line[0] != 'A') return false;
  *output = Unhex(line.substr(2));
  return true;
}

int main() {
  std::string line;
  WetextProcessorHandle h = nullptr;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op, a, b;
    in >> op >> a >> b;
    try {
      if (op == "P") {
        wetext::TokenParser p(static_cast<wetext::ParseType>(std::stoi(a)));
        std::string r = p.Reorder(Unhex(b));
        std::cout << "R " << Hex(r) << std::endl;
      } else if (op == "O") {
        wetext_destroy_processor(h);
        h = wetext_create_processor(a == "-" ? nullptr : Unhex(a).c_str(), b == "-" ? nullptr : Unhex(b).c_str());
        std::cout << "R " << (h != nullptr) << std::endl;
      } else if (op == "C") {
        wetext_destroy_processor(h);
        h = nullptr;
        std::cout << "R" << std::endl;
      } else if (op == "T" || op == "V" || op == "N") {
        std::string text = Unhex(a);
        const char* t = a == "-" ? nullptr : text.c_str();
        const char* r = op == "T" ? wetext_tag(h, t) : op == "V" ? wetext_verbalize(h, t) : wetext_normalize(h, t);
        std::cout << "R " << (r ? Hex(r) : "-") << std::endl;
        wetext_free_string(r);
      } else if (op == "S") {
        std::string t = Unhex(a);
        std::vector<std::string> cs;
        wetext::SplitUTF8StringToChars(t, &cs);
        std::cout << "R " << wetext::UTF8StringLength(t) << " " << Hex(wetext::Ltrim(t)) << " " << Hex(wetext::Rtrim(t)) << " " << Hex(wetext::Trim(t));
        for (auto& c : cs) std::cout << " " << Hex(c);
        std::cout << std::endl;
      } else if (op == "D") {
        std::vector<std::string> ps;
        wetext::Split(Unhex(a), Unhex(b), &ps);
        std::cout << "R";
        for (auto& c : ps) std::cout << " " << Hex(c);
        std::cout << std::endl;
      }
    } catch (const std::exception& e) {
      std::cout << "E " << Hex(e.what()) << std::endl;
    }
  }
  wetext_destroy_processor(h);
  return 0;
}

// A stand-in for OpenFst (its headers are not installed): a transducer is its file
// name, and the best output of a composition is asked of the process that drives us.
#pragma once
#include <unistd.h>
#include <cstdint>
#include <algorithm>
#include <fstream>
#include <memory>
#include <string>
#include <vector>

namespace stub {
// Defined in driver.cc: the output of transducer `path` on `input`, false when there is none.
bool Ask(const std::string& path, const std::string& input, std::string* output);
}  // namespace stub

namespace fst {
enum class TokenType { SYMBOL = 1, BYTE = 2, UTF8 = 3 };
struct StdArc {
  typedef int Label;
};
template <class A>
struct VectorFst {
  std::string path, text;
  static VectorFst* Read(const std::string& p) {
    if (!std::ifstream(p).good()) return nullptr;
    VectorFst* f = new VectorFst;
    f->path = p;
    return f;
  }
};
typedef VectorFst<StdArc> StdVectorFst;
typedef StdVectorFst StdFst;

template <class A>
struct StringCompiler {
  explicit StringCompiler(TokenType = TokenType::BYTE) {}
  bool operator()(const std::string& s, VectorFst<A>* f) const {
    f->path.clear();
    f->text = s;
    return true;
  }
};

template <class F, class G, class H>
void Compose(const F& a, const G& b, H* c) {
  c->path = b.path;
  c->text = a.text;
}

template <class F, class G>
void ShortestPath(const F& a, G* b, int = 1, bool = false) {
  *b = a;
}

template <class A>
struct StringPrinter {
  explicit StringPrinter(TokenType = TokenType::BYTE) {}
  bool operator()(const VectorFst<A>& f, std::string* out) const {
    out->clear();
    return stub::Ask(f.path, f.text, out);
  }
};
}  // namespace fst

// The installed OpenFst's string functors, with the interface of the release
// which the repository is built with: they take string views, and the printer
// can return the weight of the string.
#ifndef SHIM_FST_STRING_H_
#define SHIM_FST_STRING_H_
#define StringCompiler OldStringCompiler
#define StringPrinter OldStringPrinter
#include_next <fst/string.h>
#undef StringCompiler
#undef StringPrinter

#include <string>
#include <string_view>

namespace fst {

template <class Arc>
class StringCompiler : private OldStringCompiler<Arc> {
  using Base = OldStringCompiler<Arc>;

 public:
  explicit StringCompiler(TokenType token_type = TokenType::BYTE,
                          const SymbolTable *syms = nullptr)
      : Base(token_type, syms) {}

  template <class FST>
  bool operator()(std::string_view str, FST *fst) const {
    return Base::operator()(std::string(str), fst);
  }
};

template <class Arc>
class StringPrinter : private OldStringPrinter<Arc> {
  using Base = OldStringPrinter<Arc>;

 public:
  explicit StringPrinter(TokenType token_type = TokenType::BYTE,
                         const SymbolTable *syms = nullptr)
      : Base(token_type, syms) {}

  bool operator()(const Fst<Arc> &fst, std::string *str) const {
    return Base::operator()(fst, str);
  }

  bool operator()(const Fst<Arc> &fst, std::string *str,
                  typename Arc::Weight *weight) const {
    if (!Base::operator()(fst, str)) return false;
    *weight = Arc::Weight::One();
    auto s = fst.Start();
    while (fst.NumArcs(s)) {
      ArcIterator<Fst<Arc>> aiter(fst, s);
      *weight = Times(*weight, aiter.Value().weight);
      s = aiter.Value().nextstate;
    }
    *weight = Times(*weight, fst.Final(s));
    return true;
  }
};

}  // namespace fst

#endif  // SHIM_FST_STRING_H_

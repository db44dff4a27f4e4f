// Lets the thread sanitizer see the uses of the decoder's symbol tables, whose
// code is in a library that is not built for it.
#ifndef VERIF_WATCH_SYMBOLS_H_
#define VERIF_WATCH_SYMBOLS_H_
#include <string>
#include "absl/types/span.h"
#include "nisaba/translit/fst/wordpiece-segmenter.h"
#include "fst/fstlib.h"
namespace fst {
class WatchedSymbolTable : public SymbolTable {
 public:
  template <class... A>
  auto AddSymbol(A &&...a) {
    ++changes_;
    return SymbolTable::AddSymbol(std::forward<A>(a)...);
  }
  template <class A>
  auto Find(A &&a) const {
    used_ = changes_;
    return SymbolTable::Find(std::forward<A>(a));
  }

 private:
  volatile int changes_ = 0;
  static thread_local volatile int used_;
};
inline thread_local volatile int WatchedSymbolTable::used_ = 0;
}  // namespace fst
#define SymbolTable WatchedSymbolTable
#include "nisaba/translit/fst/pairlm_decoder.h"
#undef SymbolTable
#endif  // VERIF_WATCH_SYMBOLS_H_

// A stand-in for the unigram counts of OpenGrm, which the sandbox has not: the
// expected number of times each symbol occurs on the paths of an acyclic
// weighted automaton.
#ifndef VERIF_SHIM_NGRAM_NGRAM_COUNT_H_
#define VERIF_SHIM_NGRAM_NGRAM_COUNT_H_

#include <cmath>
#include <limits>
#include <map>
#include <vector>

#include "fst/fstlib.h"

namespace ngram {

template <class W>
class NGramCounter {
 public:
  explicit NGramCounter(int order, bool eps_as_backoff = false)
      : order_(order) {}

  template <class A>
  bool Count(const fst::Fst<A> &in) {
    if (order_ != 1) return false;
    fst::VectorFst<A> f(in);
    if (f.Start() == fst::kNoStateId) return true;
    if (!fst::TopSort(&f)) return false;
    const double inf = std::numeric_limits<double>::infinity();
    const int n = f.NumStates();
    std::vector<double> from(n, inf), to(n, inf);
    from[f.Start()] = 0;
    for (int s = 0; s < n; ++s) {
      for (fst::ArcIterator<fst::VectorFst<A>> i(f, s); !i.Done(); i.Next()) {
        const A &a = i.Value();
        from[a.nextstate] = Plus(from[a.nextstate], from[s] + a.weight.Value());
      }
    }
    for (int s = n - 1; s >= 0; --s) {
      to[s] = f.Final(s).Value();
      for (fst::ArcIterator<fst::VectorFst<A>> i(f, s); !i.Done(); i.Next()) {
        const A &a = i.Value();
        to[s] = Plus(to[s], a.weight.Value() + to[a.nextstate]);
      }
    }
    total_ = Plus(total_, to[f.Start()]);
    for (int s = 0; s < n; ++s) {
      for (fst::ArcIterator<fst::VectorFst<A>> i(f, s); !i.Done(); i.Next()) {
        const A &a = i.Value();
        const double cost = from[s] + a.weight.Value() + to[a.nextstate];
        if (a.ilabel == 0 || cost == inf) continue;
        auto at = counts_.emplace(a.ilabel, inf).first;
        at->second = Plus(at->second, cost);
      }
    }
    return true;
  }

  void GetFst(fst::StdVectorFst *out) const {
    out->DeleteStates();
    const int s = out->AddState();
    out->SetStart(s);
    out->SetFinal(s, fst::StdArc::Weight(static_cast<float>(total_)));
    for (const auto &c : counts_) {
      out->AddArc(s, fst::StdArc(c.first, c.first,
                                 static_cast<float>(c.second), s));
    }
  }

 private:
  static double Plus(double a, double b) {
    if (a > b) std::swap(a, b);
    if (std::isinf(a) || std::isinf(b)) return a;
    return a - std::log1p(std::exp(a - b));
  }
  int order_;
  double total_ = std::numeric_limits<double>::infinity();
  std::map<int, double> counts_;
};

}  // namespace ngram

#endif  // VERIF_SHIM_NGRAM_NGRAM_COUNT_H_

// Runs the full-string n-best tools and the wordpiece segmenter. A request is a
// line of fields between tabs, strings in hexadecimal after an "x".
#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

// This order, as the latter's namespace nisaba::translit::fst would hide fst.
#include "nisaba/translit/tools/kbest-full-string-util.h"
#include "nisaba/translit/fst/wordpiece-segmenter.h"

namespace {

using Strings = std::vector<std::string>;
using nisaba::translit::fst::WordpieceSegmenter;

Strings Split(const std::string &line, char at) {
  Strings f;
  std::stringstream ss(line);
  std::string x;
  while (std::getline(ss, x, at)) f.push_back(x);
  return f;
}

std::string Unhex(const std::string &h) {
  std::string s;
  for (size_t i = 1; i + 1 < h.size(); i += 2) {
    s.push_back(std::stoi(h.substr(i, 2), nullptr, 16));
  }
  return s;
}

Strings Unhexes(const std::string &list) {
  Strings out;
  for (const auto &h : Split(list, ',')) out.push_back(Unhex(h));
  return out;
}

std::string Hex(const std::string &s) {
  std::string h = "x";
  char b[3];
  for (unsigned char c : s) {
    std::snprintf(b, 3, "%02x", c);
    h += b;
  }
  return h;
}

std::string Join(const Strings &v) {
  std::string out;
  for (const auto &s : v) out += (out.empty() ? "" : ",") + Hex(s);
  return out;
}

std::unique_ptr<WordpieceSegmenter> segmenter;

std::string Handle(const Strings &f) {
  using namespace nisaba::translit::tools;  // NOLINT
  if (f[0] == "ensemble") {
    EnsembleFiles(f[1], f[2] == "-" ? "" : f[2])
        .RunEnsembleAndOutput(std::stoi(f[3]), f[4]);
    return "";
  }
  if (f[0] == "extract") {
    KbestExtractor(f[1]).RunExtractorAndOutput(f[5], std::stoi(f[2]),
                                               f[3] == "1", f[4] == "1");
    return "";
  }
  if (f[0] == "rejoin") {
    KbestRejoiner r(f[1], f[2], std::stoi(f[3]));
    r.RunRejoinerAndOutput(f[4]);
    // What is asked for by index is what is written.
    std::string counts = std::to_string(r.NumKbestLists());
    for (int i = 0; i <= r.NumKbestLists(); ++i) {
      const auto list = r.GetRejoinedList(i);
      counts += " " + std::to_string(list.size());
      for (const auto &p : list) counts += ":" + Hex(p.first);
    }
    return counts;
  }
  if (f[0] == "pieces" || f[0] == "file") {
    if (segmenter == nullptr || f[3] == "new") {
      segmenter = std::make_unique<WordpieceSegmenter>(Unhex(f[1]));
    }
    const auto status = f[0] == "pieces"
                            ? segmenter->InitWordpieces(Unhexes(f[2]))
                            : segmenter->InitWordpieces(Unhex(f[2]));
    return status.ok() ? "" : "error";
  }
  if (f[0] == "segment") {
    const std::string s = Unhex(f[1]);
    const auto a = segmenter->GetWordpieces(s);
    const auto b = segmenter->GetWordpieces(absl::string_view(s));
    const auto c = segmenter->TokenizeInput(s);
    if (!a.ok() || !b.ok() || !c.ok()) return "error";
    return Join(a.value()) + ";" + Join(b.value()) + ";" + Hex(c.value());
  }
  if (f[0] == "transduce") {
    fst::SymbolTable words, pieces;
    for (const auto &w : Unhexes(f[1])) words.AddSymbol(w);
    for (const auto &w : Unhexes(f[2])) pieces.AddSymbol(w);
    std::vector<int> ids;
    for (const auto &i : Split(f[3], ',')) ids.push_back(std::stoi(i));
    const auto r =
        segmenter->GetWordpieceTransducer(ids, words, pieces, Unhex(f[4]));
    if (!r.ok()) return "error";
    const auto &t = r.value();
    std::stringstream out;
    out << t.Start();
    for (fst::StateIterator<fst::StdVectorFst> s(t); !s.Done(); s.Next()) {
      if (t.Final(s.Value()) != fst::StdArc::Weight::Zero()) {
        out << " " << s.Value() << ":" << t.Final(s.Value()).Value();
      }
      for (fst::ArcIterator<fst::StdVectorFst> a(t, s.Value()); !a.Done();
           a.Next()) {
        out << " " << s.Value() << ":" << a.Value().ilabel << ":"
            << a.Value().olabel << ":" << a.Value().weight.Value() << ":"
            << a.Value().nextstate;
      }
    }
    return out.str();
  }
  return "unknown";
}

}  // namespace

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    const std::string answer = Handle(Split(line, '\t'));
    std::printf("ok %s\n", answer.c_str());
    std::fflush(stdout);
  }
  return 0;
}

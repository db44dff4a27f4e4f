// Drives the grammar runtime: each line is a command, answered by a line.
// Strings are in hexadecimal, "-" is the empty one.
#include <cstdio>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "nisaba/interim/grm2/paths/paths.h"
#include "nisaba/interim/grm2/rewrite/rewrite.h"
#include "nisaba/interim/grm2/rewrite/rewrite_manager.h"
#include "nisaba/interim/grm2/rewrite/rule_cascade.h"
#include "nisaba/interim/grm2/thrax/grm-manager.h"
#include "nisaba/scripts/brahmic/far.h"
#include "nisaba/scripts/brahmic/grammar.h"

using fst::StdArc;
using fst::StdVectorFst;
using Labels = std::vector<StdArc::Label>;
using Field = google::protobuf::RepeatedPtrField<std::string>;
using Words = std::vector<std::string>;

namespace {

std::string Hex(const std::string &s) {
  static const char kDigits[] = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) {
    r += kDigits[c >> 4];
    r += kDigits[c & 15];
  }
  return r.empty() ? "-" : r;
}

std::string Text(const std::string &h) {
  std::string r;
  if (h == "-") return r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) {
    r += static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16));
  }
  return r;
}

std::string Number(double w) {
  char buffer[64];
  std::snprintf(buffer, sizeof(buffer), "%.6g", w);
  return buffer;
}

std::string Show(const std::string &s) { return Hex(s); }
std::string Show(const Labels &labels) {
  std::string r = "L";
  for (auto l : labels) r += std::to_string(l) + ".";
  return r;
}
std::string Show(const std::pair<std::string, float> &p) {
  return Hex(p.first) + "/" + Number(p.second);
}
template <class T>
std::string Show(const std::vector<T> &v) {
  std::string r = "[";
  for (const auto &x : v) r += Show(x) + ",";
  return r + "]";
}
std::string Show(const Field &v) {
  return Show(std::vector<std::string>(v.begin(), v.end()));
}
// The machine itself: start, arcs and final states.
std::string Show(const fst::Fst<StdArc> &f) {
  std::string r = "F" + std::to_string(f.Start());
  for (fst::StateIterator<fst::Fst<StdArc>> s(f); !s.Done(); s.Next()) {
    const auto w = f.Final(s.Value());
    if (w != StdArc::Weight::Zero()) {
      r += ";f." + std::to_string(s.Value()) + "." + Number(w.Value());
    }
    for (fst::ArcIterator<fst::Fst<StdArc>> a(f, s.Value()); !a.Done();
         a.Next()) {
      const auto &arc = a.Value();
      r += ";a." + std::to_string(s.Value()) + "." +
           std::to_string(arc.ilabel) + "." + std::to_string(arc.olabel) + "." +
           std::to_string(arc.nextstate) + "." + Number(arc.weight.Value());
    }
  }
  return r;
}

class Answer {
 public:
  template <class T>
  void Add(const std::string &name, bool ok, const T &value) {
    s_ += " " + name + "=" + (ok ? "1:" + Show(value) : std::string("0"));
  }
  void Add(const std::string &name, bool ok) {
    s_ += " " + name + "=" + (ok ? "1" : "0");
  }
  std::string str() const { return s_.empty() ? s_ : s_.substr(1); }

 private:
  std::string s_;
};

std::map<std::string, StdVectorFst> machines;
thrax::GrmManager *grm = nullptr;
thrax::RuleCascade<StdArc> *thrax_cascade = nullptr;
rewrite::StdRewriteManager *manager = nullptr;
rewrite::StdRuleCascade *cascade = nullptr;

// NAME STATES START (a FROM I O W TO | f STATE W)*
std::string Define(const Words &w) {
  StdVectorFst f;
  const int n = std::stoi(w[2]);
  for (int i = 0; i < n; ++i) f.AddState();
  if (w[3] != "-1") f.SetStart(std::stoi(w[3]));
  for (size_t i = 4; i < w.size();) {
    if (w[i] == "a") {
      f.AddArc(std::stoi(w[i + 1]),
               StdArc(std::stoi(w[i + 2]), std::stoi(w[i + 3]),
                      std::stof(w[i + 4]), std::stoi(w[i + 5])));
      i += 6;
    } else {
      f.SetFinal(std::stoi(w[i + 1]), std::stof(w[i + 2]));
      i += 3;
    }
  }
  machines[w[1]] = f;
  return "ok";
}

// NAME CHECK RESET: all paths; after RESET paths it starts again.
std::string Paths(const Words &w) {
  const bool check = w[2] == "1";
  int reset = std::stoi(w[3]);
  fst::StdStringPathIterator it(machines[w[1]], fst::TokenType::BYTE,
                                fst::TokenType::BYTE, nullptr, nullptr, check);
  std::string r;
  if (it.Error()) return it.Done() ? "error" : "error not done";
  for (int i = 0;; it.Next(), ++i) {
    if (i == reset) {
      reset = -1;
      r = "";
      it.Reset();
    }
    if (it.Done()) break;
    if (i > 100000) return "endless";
    if (it.Error()) return "error";
    r += Show(it.ILabels()) + "|" + Show(it.OLabels()) + "|" +
         Hex(it.IString()) + "|" + Hex(it.OString()) + "|" +
         Number(it.Weight().Value()) + " ";
  }
  it.Next();  // Does nothing.
  if (!it.Done()) return "not done";
  if (reset >= 0) {  // It ended before that.
    std::string again;
    for (it.Reset(); !it.Done(); it.Next()) {
      again += Show(it.ILabels()) + "|" + Show(it.OLabels()) + "|" +
               Hex(it.IString()) + "|" + Hex(it.OString()) + "|" +
               Number(it.Weight().Value()) + " ";
    }
    if (again != r) return "other paths after a reset: " + again;
  }
  return "paths " + r;
}

// INPUT RULE OUTPUT N: the functions which take machines.
std::string Functions(const Words &w) {
  const auto &in = machines[w[1]];
  const auto &rule = machines[w[2]];
  const auto &out = machines[w[3]];
  const int n = std::stoi(w[4]);
  Answer a;
  std::string s;
  float weight = -1;
  Words v;
  Field p;
  std::vector<std::pair<std::string, float>> q;
  bool ok = rewrite::TopRewrite(in, rule, &s);
  a.Add("top", ok, s);
  s = "?";
  ok = rewrite::TopRewrite(in, rule, &s, &weight);
  a.Add("topw", ok, std::make_pair(s, weight));
  s = "?";
  ok = rewrite::OneTopRewrite(in, rule, &s);
  a.Add("one", ok, s);
  s = "?";
  ok = rewrite::OneTopRewrite(in, rule, &s, &weight);
  a.Add("onew", ok, std::make_pair(s, weight));
  v = {"?"};
  ok = rewrite::Rewrites(in, rule, &v);
  a.Add("all", ok, v);
  p.Add("?");
  ok = rewrite::Rewrites(in, rule, &p);
  a.Add("allp", ok, p);
  q = {{"?", 1}};
  ok = rewrite::Rewrites(in, rule, &q);
  a.Add("allw", ok, q);
  v = {"?"};
  ok = rewrite::TopRewrites(in, rule, &v);
  a.Add("tops", ok, v);
  p.Add("?");
  ok = rewrite::TopRewrites(in, rule, &p);
  a.Add("topsp", ok, p);
  q = {{"?", 1}};
  ok = rewrite::TopRewrites(in, rule, &q);
  a.Add("topsw", ok, q);
  v = {"?"};
  ok = rewrite::TopRewrites(in, rule, n, &v);
  a.Add("best", ok, v);
  p.Add("?");
  ok = rewrite::TopRewrites(in, rule, n, &p);
  a.Add("bestp", ok, p);
  q = {{"?", 1}};
  ok = rewrite::TopRewrites(in, rule, n, &q);
  a.Add("bestw", ok, q);
  a.Add("matches", rewrite::Matches(in, out, rule));
  return a.str();
}

std::string Load(const Words &w) {
  delete cascade;
  delete thrax_cascade;
  thrax_cascade = nullptr;
  if (w[2] == "new" || grm == nullptr) {
    delete grm;
    delete manager;
    grm = new thrax::GrmManager;
    manager = new rewrite::StdRewriteManager;
  }
  cascade = new rewrite::StdRuleCascade;
  Answer a;
  const std::string path = Text(w[1]);
  a.Add("thrax", grm->LoadArchive(path));
  a.Add("manager", manager->Load(path));
  a.Add("cascade", cascade->Load(path));
  Words keys;
  for (const auto &k : *grm->GetFstMap()) keys.push_back(k.first);
  a.Add("keys", true, keys);
  const auto symbols = grm->GetGeneratedSymbolTable();
  a.Add("symbols", symbols != nullptr, symbols ? symbols->Name() : "");
  a.Add("msymbols", manager->GeneratedSymbols() != nullptr);
  a.Add("csymbols", cascade->GeneratedSymbols() != nullptr);
  return a.str();
}

std::string Get(const Words &w) {
  const std::string name = Text(w[1]);
  Answer a;
  const auto *f = grm->GetFst(name);
  a.Add("get", f != nullptr, f ? Show(*f) : "");
  const auto safe = grm->GetFstSafe(name);
  a.Add("safe", safe != nullptr, safe ? Show(*safe) : "");
  const auto *g = manager->GetFst(name);
  a.Add("mget", g != nullptr, g ? Show(*g) : "");
  const auto msafe = manager->GetFstSafe(name);
  a.Add("msafe", msafe != nullptr, msafe ? Show(*msafe) : "");
  return a.str();
}

// NAME MACHINE
std::string Set(const Words &w) {
  Answer a;
  a.Add("set", grm->SetFst(Text(w[1]), machines[w[2]]));
  a.Add("mset", manager->SetFst(Text(w[1]), machines[w[2]]));
  return a.str();
}

// RULE INPUT OUTPUT N PARENS ASSIGNMENTS
std::string Rule(const Words &w) {
  const std::string rule = Text(w[1]), in = Text(w[2]), out = Text(w[3]);
  const int n = std::stoi(w[4]);
  const std::string pdt = Text(w[5]), mpdt = Text(w[6]);
  Answer a;
  std::string s = "?";
  StdVectorFst f, compiled;
  Words v;
  Field p;
  fst::StringCompiler<StdArc>(fst::TokenType::BYTE)(in, &compiled);
  bool ok = grm->RewriteBytes(rule, in, &s, pdt, mpdt);
  a.Add("t.bytes", ok, s);
  s = "?";
  ok = grm->RewriteBytes(rule, compiled, &s, pdt, mpdt);
  a.Add("t.bytesf", ok, s);
  ok = grm->Rewrite(rule, in, &f, pdt, mpdt);
  a.Add("t.rewrite", ok, f);
  ok = grm->Rewrite(rule, compiled, &f, pdt, mpdt);
  a.Add("t.rewritef", ok, f);
  s = "?";
  ok = manager->TopRewrite(rule, in, &s, pdt, mpdt);
  a.Add("top", ok, s);
  s = "?";
  ok = manager->OneTopRewrite(rule, in, &s, pdt, mpdt);
  a.Add("one", ok, s);
  v = {"?"};
  ok = manager->TopRewrites(rule, in, &v, pdt, mpdt);
  a.Add("tops", ok, v);
  p.Add("?");
  ok = manager->TopRewrites(rule, in, &p, pdt, mpdt);
  a.Add("topsp", ok, p);
  v = {"?"};
  ok = manager->TopRewrites(rule, in, n, &v, pdt, mpdt);
  a.Add("best", ok, v);
  p.Add("?");
  ok = manager->TopRewrites(rule, in, n, &p, pdt, mpdt);
  a.Add("bestp", ok, p);
  v = {"?"};
  ok = manager->Rewrites(rule, in, &v, pdt, mpdt);
  a.Add("all", ok, v);
  p.Add("?");
  ok = manager->Rewrites(rule, in, &p, pdt, mpdt);
  a.Add("allp", ok, p);
  a.Add("matches", manager->Matches(rule, in, out, pdt, mpdt));
  ok = manager->RewriteLattice(rule, in, &f, pdt, mpdt);
  a.Add("lattice", ok, f);
  ok = manager->RewriteLattice(rule, compiled, &f, pdt, mpdt);
  a.Add("latticef", ok, f);
  return a.str();
}

// HOW RULE...: HOW is whether the first cascade is used again.
std::string Rules(const Words &w) {
  Words defs;
  std::vector<thrax::RuleTriple> triples;
  Field field;
  for (size_t i = 2; i < w.size(); ++i) {
    defs.push_back(Text(w[i]));
    triples.emplace_back(defs.back());
    field.Add(Text(w[i]));
  }
  Answer a;
  if (thrax_cascade == nullptr || w[1] == "new") {
    delete thrax_cascade;
    thrax_cascade = new thrax::RuleCascade<StdArc>;
  }
  a.Add("t.triples", thrax_cascade->Init(grm, triples));
  a.Add("t.defs", thrax_cascade->InitFromDefs(grm, defs));
  a.Add("field", cascade->SetRules(field));
  a.Add("rules", cascade->SetRules(defs));
  return a.str();
}

// INPUT OUTPUT N
std::string Cascade(const Words &w) {
  const std::string in = Text(w[1]), out = Text(w[2]);
  const int n = std::stoi(w[3]);
  Answer a;
  std::string s, debug;
  StdVectorFst f, compiled;
  Words v, d;
  Field p;
  Labels l;
  std::vector<Labels> ls;
  fst::StringCompiler<StdArc>(fst::TokenType::BYTE)(in, &compiled);
  s = "?";
  bool ok = thrax_cascade->RewriteBytes(in, &s);
  a.Add("t.bytes", ok, s);
  ok = thrax_cascade->Rewrite(in, &f);
  a.Add("t.rewrite", ok, f);
  ok = thrax_cascade->Rewrite(compiled, &f);
  a.Add("t.rewritef", ok, f);
  ok = cascade->Rewrite(compiled, &f);
  a.Add("rewrite", ok, f);
  f = compiled;
  ok = cascade->Rewrite(f, &f);
  a.Add("rewrites", ok, f);
  ok = cascade->TopRewrite(in, &f);
  a.Add("topf", ok, f);
  l = {1};
  ok = cascade->TopRewrite(in, &l);
  a.Add("topl", ok, l);
  s = "?";
  ok = cascade->TopRewrite(in, &s);
  a.Add("top", ok, s);
  s = debug = "?";
  ok = cascade->TopRewrite(in, &s, &debug);
  a.Add("topd", ok, Words{s, debug});
  ok = cascade->OneTopRewrite(in, &f);
  a.Add("onef", ok, f);
  l = {1};
  ok = cascade->OneTopRewrite(in, &l);
  a.Add("onel", ok, l);
  s = "?";
  ok = cascade->OneTopRewrite(in, &s);
  a.Add("one", ok, s);
  s = debug = "?";
  ok = cascade->OneTopRewrite(in, &s, &debug);
  a.Add("oned", ok, Words{s, debug});
  ok = cascade->TopRewrites(in, n, &f);
  a.Add("bestf", ok, f);
  ls = {{1}};
  ok = cascade->TopRewrites(in, n, &ls);
  a.Add("bestl", ok, ls);
  v = {"?"};
  ok = cascade->TopRewrites(in, n, &v);
  a.Add("best", ok, v);
  v = d = {"?"};
  ok = cascade->TopRewrites(in, n, &v, &d);
  a.Add("bestd", ok, std::vector<Words>{v, d});
  p.Add("?");
  ok = cascade->TopRewrites(in, n, &p);
  a.Add("bestp", ok, p);
  ok = cascade->TopRewrites(in, &f);
  a.Add("topsf", ok, f);
  ls = {{1}};
  ok = cascade->TopRewrites(in, &ls);
  a.Add("topsl", ok, ls);
  v = {"?"};
  ok = cascade->TopRewrites(in, &v);
  a.Add("tops", ok, v);
  v = d = {"?"};
  ok = cascade->TopRewrites(in, &v, &d);
  a.Add("topsd", ok, std::vector<Words>{v, d});
  p.Clear();
  p.Add("?");
  ok = cascade->TopRewrites(in, &p);
  a.Add("topsp", ok, p);
  ok = cascade->Rewrites(in, &f);
  a.Add("allf", ok, f);
  ls = {{1}};
  ok = cascade->Rewrites(in, &ls);
  a.Add("alll", ok, ls);
  v = {"?"};
  ok = cascade->Rewrites(in, &v);
  a.Add("all", ok, v);
  v = d = {"?"};
  ok = cascade->Rewrites(in, &v, &d);
  a.Add("alld", ok, std::vector<Words>{v, d});
  p.Clear();
  p.Add("?");
  ok = cascade->Rewrites(in, &p);
  a.Add("allp", ok, p);
  a.Add("matches", cascade->Matches(in, out));
  return a.str();
}

// ---- Brahmic grammars.

std::map<std::string, std::unique_ptr<nisaba::brahmic::Grammar>> grammars;
std::map<std::string, std::unique_ptr<nisaba::brahmic::Normalizer>> normalizers;
std::map<std::string, std::unique_ptr<nisaba::brahmic::ReadingNorm>> readings;
std::map<std::string, std::unique_ptr<nisaba::brahmic::Far>> fars;

class Open : public nisaba::brahmic::Far {
 public:
  using Far::Far;
};

// SLOT FAR FST
std::string LoadGrammar(const Words &w) {
  auto &g = grammars[w[1]];
  g = std::make_unique<nisaba::brahmic::Grammar>(Text(w[2]), Text(w[3]));
  Answer a;
  const auto s = g->Load();
  a.Add("load", s.ok());
  a.Add("code", true, std::to_string(static_cast<int>(s.code())));
  a.Add("verify", g->VerifyLoad().ok());
  return a.str();
}

std::string LoadNormalizer(const Words &w) {
  auto &g = normalizers[w[1]];
  g = std::make_unique<nisaba::brahmic::Normalizer>(Text(w[2]));
  Answer a;
  a.Add("load", g->Load().ok());
  a.Add("again", g->Load().ok());
  a.Add("verify", g->VerifyLoad().ok());
  a.Add("supports", nisaba::brahmic::Normalizer::SupportsFst(Text(w[2])));
  return a.str();
}

std::string LoadReading(const Words &w) {
  auto &g = readings[w[1]];
  g = std::make_unique<nisaba::brahmic::ReadingNorm>(Text(w[2]));
  Answer a;
  a.Add("load", g->Load().ok());
  return a.str();
}

std::string Normal(const nisaba::brahmic::Normalizer &g,
                   const std::string &text) {
  Answer a;
  std::string s = "?";
  bool ok = g.Rewrite(text, &s).ok();
  a.Add("rewrite", ok, s);
  s = "?";
  ok = g.NormalizeOnly(text, &s).ok();
  a.Add("only", ok, s);
  return a.str();
}

std::string Normal(const Words &w) {
  return Normal(*normalizers[w[1]], Text(w[2]));
}

std::string Reading(const Words &w) {
  Answer a;
  std::string s = "?";
  const bool ok = readings[w[1]]->Rewrite(Text(w[2]), &s).ok();
  a.Add("rewrite", ok, s);
  return a.str();
}

std::string Grammar(const nisaba::brahmic::Grammar &g,
                    const std::string &text) {
  Answer a;
  std::string s = "?";
  const bool ok = g.Rewrite(text, &s).ok();
  a.Add("rewrite", ok, s);
  a.Add("accept", g.Accept(text).ok());
  return a.str();
}

std::string Grammar(const Words &w) {
  return Grammar(*grammars[w[1]], Text(w[2]));
}

// FAR FST
std::string FarFst(const Words &w) {
  auto &far = fars[w[1]];
  Answer a;
  if (!far) {
    far = std::make_unique<nisaba::brahmic::Far>(Text(w[1]));
    const bool ok = far->Load().ok();
    a.Add("load", ok);
    if (!ok) {
      far.reset();
      return a.str();
    }
  }
  const auto f = far->Fst(Text(w[2]));
  int arcs = 0;
  int states = 0;
  if (f) {
    for (fst::StateIterator<fst::StdFst> s(*f); !s.Done(); s.Next()) {
      ++states;
      arcs += f->NumArcs(s.Value());
    }
  }
  a.Add("fst", f != nullptr,
        std::to_string(states) + " " + std::to_string(arcs));
  return a.str();
}

// FST TEXT...: several grammars and normalizers share two managers; when they
// are gone, the managers are still the caller's.
std::string Shared(const Words &w) {
  static thrax::GrmManager *visual = nullptr, *wellformed = nullptr;
  if (visual == nullptr) {
    auto v = nisaba::brahmic::LoadVisualNormManager();
    auto f = nisaba::brahmic::LoadWellformedManager();
    if (!v.ok() || !f.ok()) return "no managers";
    visual = *v;
    wellformed = *f;
  }
  const std::string name = Text(w[1]);
  Answer a;
  {
    nisaba::brahmic::Normalizer one(name, visual, wellformed);
    nisaba::brahmic::Normalizer two(name, visual, wellformed);
    nisaba::brahmic::Grammar three("visual_norm", name, visual);
    nisaba::brahmic::Grammar four("wellformed", name, wellformed);
    a.Add("one", one.VerifyLoad().ok());
    a.Add("two", two.VerifyLoad().ok());
    a.Add("three", three.VerifyLoad().ok());
    a.Add("four", four.VerifyLoad().ok());
    for (size_t i = 2; i < w.size(); ++i) {
      const std::string text = Text(w[i]);
      if (Normal(one, text) != Normal(two, text)) return "differ";
      a.Add("normal", true, Normal(one, text));
      a.Add("visual", true, Grammar(three, text));
      a.Add("wellformed", true, Grammar(four, text));
    }
  }
  a.Add("alive", visual->GetFst("DEVA") && wellformed->GetFst("DEVA"));
  return a.str();
}

// SLOT THREADS TEXT...: in parallel, what in sequence.
std::string Threads(const Words &w) {
  const auto &g = *normalizers[w[1]];
  const int n = std::stoi(w[2]);
  Words expected;
  for (size_t i = 3; i < w.size(); ++i) {
    expected.push_back(Normal(g, Text(w[i])));
  }
  std::vector<int> wrong(n, 0);
  std::vector<std::thread> threads;
  for (int t = 0; t < n; ++t) {
    threads.emplace_back([&, t] {
      for (size_t k = 0; k < expected.size(); ++k) {
        const size_t i = (k + t * 7) % expected.size();
        if (Normal(g, Text(w[i + 3])) != expected[i]) ++wrong[t];
      }
    });
  }
  for (auto &t : threads) t.join();
  int bad = 0;
  for (int x : wrong) bad += x;
  return bad ? "differ " + std::to_string(bad) : "same";
}

}  // namespace

int main(int argc, char **argv) {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream stream(line);
    Words w;
    std::string word;
    while (stream >> word) w.push_back(word);
    static const std::map<std::string, std::string (*)(const Words &)>
        commands = {{"fst", Define},       {"paths", Paths},
                    {"functions", Functions}, {"load", Load},
                    {"get", Get},          {"set", Set},
                    {"rule", Rule},        {"rules", Rules},
                    {"cascade", Cascade},  {"grammar", LoadGrammar},
                    {"normalizer", LoadNormalizer},
                    {"reading", LoadReading}, {"normal", Normal},
                    {"read", Reading},     {"apply", Grammar},
                    {"far", FarFst},       {"shared", Shared},
                    {"threads", Threads}};
    std::cout << commands.at(w[0])(w) << std::endl;
  }
  return 0;
}

// Runs the decoder of pair language models. A request is a line of fields
// between tabs, strings in hexadecimal after an "x".
#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "nisaba/translit/fst/pairlm_decoder.h"
#include "nisaba/translit/fst/pairlm_decoder_runner.h"
#include "google/protobuf/text_format.h"

namespace {

using Strings = std::vector<std::string>;
using nisaba::translit::fst::PairLMDecoder;
using nisaba::translit::fst::PairLMDecoderOptions;

Strings Split(const std::string &line, char at) {
  Strings f;
  std::stringstream ss(line);
  std::string x;
  while (std::getline(ss, x, at)) f.push_back(x);
  if (!line.empty() && line.back() == at) f.push_back("");
  return f;
}

std::string Unhex(const std::string &h) {
  std::string s;
  for (size_t i = 1; i + 1 < h.size(); i += 2) {
    s.push_back(std::stoi(h.substr(i, 2), nullptr, 16));
  }
  return s;
}

std::string Hex(const std::string &s) {
  std::string h = "x";
  char b[3];
  for (unsigned char c : s) {
    std::snprintf(b, 3, "%02x", c);
    h += b;
  }
  return h;
}

PairLMDecoderOptions Options(const std::string &hex) {
  PairLMDecoderOptions options;
  if (!google::protobuf::TextFormat::ParseFromString(Unhex(hex), &options)) {
    std::abort();
  }
  return options;
}

std::unique_ptr<PairLMDecoder> decoder;

std::string Handle(const Strings &f) {
  if (f[0] == "new") {
    decoder = std::make_unique<PairLMDecoder>(Options(f[1]));
    return "";
  }
  if (f[0] == "text") {
    const auto fst = decoder->TransliterateString(Unhex(f[1]), std::stoi(f[2]));
    return Hex(decoder->PrintTransliterations(Unhex(f[3]), fst, f[4] == "1"));
  }
  if (f[0] == "cached") {
    return decoder->CheckCache(Unhex(f[1])) ? "1" : "0";
  }
  if (f[0] == "delay") {
    absl::Mutex::Delay() = std::stoi(f[1]);
    return "";
  }
  if (f[0] == "run") {
    return nisaba::translit::fst::RunPairLMDecoder(
               Options(f[1]), std::stoi(f[2]), std::stoi(f[3]), f[4], f[5])
                   .ok()
               ? ""
               : "error";
  }
  if (f[0] == "threads") {
    const int n = std::stoi(f[1]), k = std::stoi(f[2]);
    const Strings lines = Split(f[3], ',');
    std::vector<Strings> out(n, Strings(lines.size()));
    std::vector<std::thread> threads;
    for (int t = 0; t < n; ++t) {
      threads.emplace_back([&lines, &out, k, t] {
        for (size_t i = 0; i < lines.size(); ++i) {
          const size_t at = (i + t / 2) % lines.size();
          const auto fst = decoder->TransliterateString(Unhex(lines[at]), k);
          out[t][at] = decoder->PrintTransliterations("", fst);
        }
      });
    }
    for (auto &t : threads) t.join();
    std::string answer;
    for (const auto &o : out) {
      for (const auto &s : o) answer += (answer.empty() ? "" : ",") + Hex(s);
    }
    return answer;
  }
  return "unknown";
}

}  // namespace

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    const std::string answer = Handle(Split(line, '\t'));
    std::printf("ok %s\n", answer.c_str());
    std::fflush(stdout);
  }
  return 0;
}

// Reads requests from the standard input, one per line:
//   <split chars: 0|1> TAB <pairwise: 0|1> TAB <reference> TAB <test> TAB <out>
// and answers each with "ok <error rate>".
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <cstdio>

#include "nisaba/translit/tools/calculate_error_rate.h"

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::vector<std::string> f;
    std::stringstream ss(line);
    std::string x;
    while (std::getline(ss, x, '\t')) f.push_back(x);
    nisaba::translit::tools::MultiRefErrorRate calc(f[0] == "1");
    const bool pairwise = f[1] == "1";
    calc.CalculateErrorRate(f[2], f[3], pairwise);
    calc.Write(f[4], pairwise);
    std::printf("ok %.17g\n", pairwise ? 0.0 : calc.CalcErrorRate());
    std::fflush(stdout);
  }
  return 0;
}

// Stand-in for Bazel's runfiles library: files are below $SHIM_RUNFILES.
#ifndef SHIM_RUNFILES_H_
#define SHIM_RUNFILES_H_
#include <cstdlib>
#include <memory>
#include <string>
namespace bazel {
namespace tools {
namespace cpp {
namespace runfiles {
class Runfiles {
 public:
  static Runfiles *Create(const std::string &, std::string *error) {
    if (!std::getenv("SHIM_RUNFILES")) {
      *error = "no runfiles";
      return nullptr;
    }
    return new Runfiles;
  }
  std::string Rlocation(const std::string &path) const {
    return std::string(std::getenv("SHIM_RUNFILES")) + "/" + path;
  }
};
}  // namespace runfiles
}  // namespace cpp
}  // namespace tools
}  // namespace bazel
#endif

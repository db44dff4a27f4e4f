// What newer protocol buffers have: ZeroCopyOutputStream::WriteCord().
#ifndef NISABA_VERIF_SHIMPB_ZERO_COPY_STREAM_H_
#define NISABA_VERIF_SHIMPB_ZERO_COPY_STREAM_H_
#include <cstring>
#include "absl/strings/cord.h"
#include <google/protobuf/stubs/common.h>
#include <google/protobuf/port_def.inc>
#include <google/protobuf/port_undef.inc>

namespace nisaba_verif {
template <typename Stream>
bool WriteCord(Stream *stream, const absl::Cord &cord) {
  for (absl::string_view chunk : cord.Chunks()) {
    while (!chunk.empty()) {
      void *data;
      int size;
      if (!stream->Next(&data, &size)) return false;
      const size_t n = static_cast<size_t>(size) < chunk.size()
          ? size : chunk.size();
      memcpy(data, chunk.data(), n);
      chunk.remove_prefix(n);
      if (n < static_cast<size_t>(size)) stream->BackUp(size - n);
    }
  }
  return true;
}
}  // namespace nisaba_verif

#pragma push_macro("GOOGLE_DISALLOW_EVIL_CONSTRUCTORS")
#undef GOOGLE_DISALLOW_EVIL_CONSTRUCTORS
// The macro is the end of the class, so that a method can be added there.
#define GOOGLE_DISALLOW_EVIL_CONSTRUCTORS(T)                 \
  T(const T &) = delete;                                     \
  void operator=(const T &) = delete;                        \
 public:                                                     \
  template <typename C>                                      \
  bool WriteCord(const C &cord) {                            \
    return ::nisaba_verif::WriteCord(this, cord);            \
  }                                                          \
 private:                                                    \
  static constexpr int nisaba_verif_end_ = 0
#include_next <google/protobuf/io/zero_copy_stream.h>
#pragma pop_macro("GOOGLE_DISALLOW_EVIL_CONSTRUCTORS")

#endif  // NISABA_VERIF_SHIMPB_ZERO_COPY_STREAM_H_

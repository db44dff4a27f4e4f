// Calls the portability library, one request per line, all strings in hex:
// see the branches below. Answers with one line each.
#include <cstdint>
#include <cstdio>
#include <iostream>
#include <memory>
#include <random>
#include <sstream>
#include <string>
#include <vector>

#include "absl/strings/str_split.h"
#include "google/protobuf/descriptor.pb.h"
#include "google/protobuf/io/coded_stream.h"
#include "nisaba/port/file.h"
#include "nisaba/port/file_util.h"
#include "nisaba/port/proto_file_stream.h"
#include "nisaba/port/timer.h"
#include "nisaba/port/unicode_properties.h"
#include "nisaba/port/utf8_delimiters.h"
#include "nisaba/port/utf8_util.h"

namespace {

namespace nu = nisaba::utf8;
namespace nf = nisaba::file;

std::string Unhex(const std::string &h) {
  std::string out;
  for (size_t i = 0; i + 1 < h.size(); i += 2) {
    out.push_back(static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16)));
  }
  return out;
}

std::string Hex(absl::string_view s) {
  std::string out = "x";
  char b[4];
  for (const char c : s) {
    std::snprintf(b, sizeof b, "%02x", static_cast<unsigned char>(c));
    out += b;
  }
  return out;
}

// A view into a heap block that ends with it, so that the sanitizer sees reads
// past the view, or which goes on with other text.
class Held {
 public:
  Held(const std::string &s, const std::string &rest)
      : size_(s.size()), block_(new char[s.size() + rest.size() + 1]) {
    std::copy(s.begin(), s.end(), block_.get());
    std::copy(rest.begin(), rest.end(), block_.get() + s.size());
    block_[s.size() + rest.size()] = 0;
    if (rest.empty()) {
      exact_.reset(new char[s.size() ? s.size() : 1]);
      std::copy(s.begin(), s.end(), exact_.get());
    }
  }
  absl::string_view view() const {
    return absl::string_view(exact_ ? exact_.get() : block_.get(), size_);
  }
  absl::string_view terminated() const {
    return absl::string_view(block_.get(), size_);
  }

 private:
  size_t size_;
  std::unique_ptr<char[]> block_, exact_;
};

// The well-formed byte sequences, after table 3-7 of the Unicode Standard.
// Returns the length of the first character of s, or 0.
int WellFormed(const unsigned char *s, size_t n, uint32_t *c) {
  if (!n) return 0;
  const unsigned a = s[0];
  auto in = [&](size_t i, unsigned lo, unsigned hi) {
    return i < n && s[i] >= lo && s[i] <= hi;
  };
  if (a <= 0x7F) { *c = a; return 1; }
  if (a >= 0xC2 && a <= 0xDF && in(1, 0x80, 0xBF)) {
    *c = (a & 31) << 6 | (s[1] & 63);
    return 2;
  }
  if (a >= 0xE0 && a <= 0xEF &&
      in(1, a == 0xE0 ? 0xA0 : 0x80, a == 0xED ? 0x9F : 0xBF) &&
      in(2, 0x80, 0xBF)) {
    *c = (a & 15) << 12 | (s[1] & 63) << 6 | (s[2] & 63);
    return 3;
  }
  if (a >= 0xF0 && a <= 0xF4 &&
      in(1, a == 0xF0 ? 0x90 : 0x80, a == 0xF4 ? 0x8F : 0xBF) &&
      in(2, 0x80, 0xBF) && in(3, 0x80, 0xBF)) {
    *c = (a & 7) << 18 | (s[1] & 63) << 12 | (s[2] & 63) << 6 | (s[3] & 63);
    return 4;
  }
  return 0;
}

std::string Encoded(uint32_t c) {
  std::string s;
  auto add = [&](uint32_t x) { s.push_back(static_cast<char>(x)); };
  if (c < 0x80) {
    add(c);
  } else if (c < 0x800) {
    add(0xC0 | c >> 6);
    add(0x80 | (c & 63));
  } else if (c < 0x10000) {
    add(0xE0 | c >> 12);
    add(0x80 | (c >> 6 & 63));
    add(0x80 | (c & 63));
  } else {
    add(0xF0 | c >> 18);
    add(0x80 | (c >> 12 & 63));
    add(0x80 | (c >> 6 & 63));
    add(0x80 | (c & 63));
  }
  return s;
}

struct Tally {
  long n = 0, good = 0, bad = 0;
  std::string first = "x";

  void Add(bool ok, absl::string_view what) {
    ++n;
    if (!ok && !bad++) first = Hex(what);
  }
  std::string Text() const {
    std::ostringstream s;
    s << n << " " << good << " " << bad << " " << first;
    return s.str();
  }
};

// Compares everything that decodes with the reference, on one sequence.
void CheckBytes(const std::string &s, Tally *t) {
  uint32_t c = 0, first = 0;
  size_t pos = 0;
  int count = 0;
  bool valid = true;
  std::vector<uint32_t> want;
  while (pos < s.size()) {
    const int k = WellFormed(
        reinterpret_cast<const unsigned char *>(s.data()) + pos,
        s.size() - pos, &c);
    if (!k) {
      valid = false;
      break;
    }
    if (!count++) first = c;
    want.push_back(c);
    pos += k;
  }
  t->good += valid;
  char32 got = -7;
  const int len = nu::DecodeUnicodeChar(s, &got);
  bool ok = valid ? len == static_cast<int>(Encoded(first).size()) &&
                        got == static_cast<char32>(first)
                  : len == 1 && got == nu::kBadUTF8Char;
  got = -7;
  const bool single = nu::DecodeSingleUnicodeChar(s, &got);
  ok = ok && single == (valid && count == 1);
  if (single) {
    ok = ok && got == static_cast<char32>(first);
  } else {
    ok = ok && got == nu::kBadUTF8Char;
  }
  const auto split = nu::StrSplitByChar(s);
  const auto ints = nu::StrSplitByCharToUnicode(s);
  if (!valid) {
    ok = ok && split.empty() && ints.empty();
  } else {
    ok = ok && split.size() == want.size() && ints.size() == want.size();
    for (size_t i = 0; ok && i < want.size(); ++i) {
      ok = split[i] == Encoded(want[i]) && ints[i] == static_cast<int>(want[i]);
    }
  }
  t->Add(ok, s);
}

std::string Status(const absl::Status &s) { return s.ok() ? "ok" : "error"; }

std::string Answer(const std::vector<std::string> &f);

std::unique_ptr<File> open_file;
std::unique_ptr<std::string> open_name;

}  // namespace

namespace {

std::string Answer(const std::vector<std::string> &f) {
  const std::string &op = f[0];
  std::ostringstream out;
  auto arg = [&](int i) { return Unhex(f[i].substr(1)); };
  if (op == "points") {  // All code points in a range, modulo a step.
    Tally t;
    for (uint32_t c = std::stoul(f[1]); c < std::stoul(f[2]);
         c += std::stoul(f[3])) {
      if (c >= 0xD800 && c < 0xE000) continue;
      const std::string want = Encoded(c);
      const std::string s = nu::EncodeUnicodeChar(c);
      t.Add(s == want, want);
      CheckBytes(want, &t);
    }
    return t.Text();
  }
  if (op == "bytes") {  // Sequences that start with some bytes.
    Tally t;
    const std::string head = arg(1);
    const int more = std::stoi(f[2]);
    const long step = std::stol(f[3]);
    for (long i = std::stol(f[4]); i < 1L << (8 * more); i += step) {
      std::string s = head;
      for (int k = more; k--;) s.push_back(static_cast<char>(i >> (8 * k)));
      CheckBytes(s, &t);
    }
    return t.Text();
  }
  if (op == "decode") {
    Held h(arg(1), "");
    Tally t;
    CheckBytes(std::string(h.view()), &t);
    char32 c = -7, d = -7;
    out << nu::DecodeUnicodeChar(h.view(), &c) << " " << c << " "
        << nu::DecodeSingleUnicodeChar(h.view(), &d) << " " << d << " "
        << t.bad << " s";
    for (const auto &s : nu::StrSplitByChar(h.view())) out << " " << Hex(s);
    out << " u";
    for (int u : nu::StrSplitByCharToUnicode(h.view())) out << " " << u;
    return out.str();
  }
  if (op == "split") {
    Held h(arg(1), "");
    out << "w";
    for (absl::string_view s : absl::StrSplit(
             h.view(), nu::Utf8WhitespaceDelimiter())) {
      out << " " << Hex(s);
    }
    out << " k";
    for (absl::string_view s : absl::StrSplit(
             h.view(), nu::Utf8WhitespaceDelimiter(), absl::SkipEmpty())) {
      out << " " << Hex(s);
    }
    return out.str();
  }
  if (op == "find") {
    Held h(arg(1), "");
    const nu::Utf8WhitespaceDelimiter d;
    const absl::string_view r = d.Find(h.view(), std::stoul(f[2]));
    out << r.data() - h.view().data() << " " << r.size();
    return out.str();
  }
  if (op == "spaces") {
    for (const auto &set : {nu::GetBreakingWhitespaceChars(),
                            nu::GetNonBreakingWhitespaceChars(),
                            nu::GetAllWhitespaceChars()}) {
      out << "s ";
      for (char32_t c : set) out << static_cast<uint32_t>(c) << " ";
    }
    return out.str();
  }
  if (op == "join") {
    Held a(arg(1), ""), b(arg(2), "");
    return Hex(nf::JoinPath(a.view(), b.view()));
  }
  if (op == "temp") {
    Held a(arg(1), "");
    return Hex(nf::TempFilePath(a.view()));
  }
  if (op == "writetemp") {
    Held a(arg(1), ""), b(arg(2), "");
    const auto s = nf::WriteTempTextFile(a.view(), b.view());
    return s.ok() ? "ok " + Hex(*s) : "error";
  }
  if (op == "write") {
    Held a(arg(1), "rest"), b(arg(2), "");
    return Status(nf::WriteTextFile(a.view(), b.view()));
  }
  if (op == "readtext" || op == "readbinary") {
    Held a(arg(1), "rest");
    const auto s = op == "readtext" ? nf::ReadTextFile(a.view())
                                    : nf::ReadBinaryFile(a.view());
    return s.ok() ? "ok " + Hex(*s) : "error";
  }
  if (op == "lines") {
    Held a(arg(1), "rest");
    const int n = std::stoi(f[2]);
    const auto s = n == -1 ? nf::ReadLines(a.view()) : nf::ReadLines(a.view(), n);
    if (!s.ok()) return "error";
    out << "ok";
    for (const auto &l : *s) out << " " << Hex(l);
    return out.str();
  }
  // Files.
  if (op == "open") {  // name, mode, variant
    Held a(arg(1), f[3] == "view" || f[3] == "die" ? "rest" : "");
    Held m(arg(2), f[3] == "die" ? "+" : "");
    const std::string name(a.view());
    if (f[3] == "char") {
      open_file.reset(File::Open(name.c_str(), arg(2).c_str()));
    } else if (f[3] == "view") {
      open_file.reset(File::Open(a.view(), arg(2).c_str()));
    } else if (f[3] == "die2") {
      open_file.reset(File::OpenOrDie(a.terminated(), arg(2).c_str()));
    } else {
      open_file.reset(::file::OpenOrDie(a.view(), m.view(), ::file::Defaults()));
    }
    return open_file ? (open_file->Open() ? "ok" : "not open") : "error";
  }
  if (op == "fwrite") {
    const std::string s = arg(1);
    if (f[2] == "raw") {
      out << open_file->Write(s.data(), s.size());
    } else if (f[2] == "string") {
      out << open_file->WriteString(s);
    } else if (f[2] == "die") {
      open_file->WriteOrDie(s.data(), s.size());
      out << s.size();
    } else if (f[2] == "status") {
      Held h(s, "");
      out << (::file::WriteString(open_file.get(), h.view(),
                                  ::file::Defaults()).ok() ? s.size() : 0);
    } else {
      out << (open_file->WriteLine(s) ? s.size() + 1 : 0);
    }
    return out.str();
  }
  if (op == "fread") {
    const uint64_t n = std::stoull(f[1]);
    if (f[2] == "raw") {
      std::unique_ptr<char[]> b(new char[n]);
      const size_t k = open_file->Read(b.get(), n);
      return Hex(absl::string_view(b.get(), k));
    }
    if (f[2] == "die") {
      std::unique_ptr<char[]> b(new char[n]);
      open_file->ReadOrDie(b.get(), n);
      return Hex(absl::string_view(b.get(), n));
    }
    if (f[2] == "line") {
      std::unique_ptr<char[]> b(new char[n]);
      const char *r = open_file->ReadLine(b.get(), n);
      return r == nullptr ? "end" : Hex(r);
    }
    std::string s = "something";
    const int64_t k = open_file->ReadToString(&s, n);
    return k == static_cast<int64_t>(s.size()) ? Hex(s) : "length";
  }
  if (op == "flush") return open_file->Flush() ? "ok" : "error";
  if (op == "size") {
    out << open_file->Size();
    return out.str();
  }
  if (op == "name") return Hex(open_file->filename());
  if (op == "close") {
    bool ok;
    if (f[1] == "flags") {
      ok = open_file->Close(::file::Defaults()).ok();
    } else if (f[1] == "wrong") {
      return open_file->Close(::file::Defaults() + 1).ok() ? "ok" : "error";
    } else {
      ok = open_file->Close();
    }
    if (ok && open_file->Open()) return "still open";
    open_file.reset();
    return ok ? "ok" : "error";
  }
  if (op == "delete") {
    Held a(arg(1), f[2] == "view" ? "rest" : "");
    if (f[2] == "view") return File::Delete(a.view()) ? "ok" : "error";
    return File::Delete(arg(1).c_str()) ? "ok" : "error";
  }
  if (op == "exists") return File::Exists(arg(1).c_str()) ? "yes" : "no";
  // Protocol buffers.
  if (op == "proto") {
    google::protobuf::FileDescriptorProto p;
    p.set_name("before");
    Held a(arg(1), "rest");
    bool ok;
    if (f[2] == "read") {
      ok = ::file::ReadFileToProto(a.view(), &p);
    } else {
      ok = ::file::GetTextProto(a.view(), &p, ::file::Defaults()).ok();
    }
    return ok ? "ok " + Hex(p.SerializeAsString()) : "error";
  }
  if (op == "stream") {
    // name, block size, how it ends, then chunks: written, or backed up.
    std::unique_ptr<File> file(File::Open(arg(1).c_str(), "w"));
    if (!file) return "error";
    bool ok = true;
    {
      nisaba::proto::ProtoFileOutputStream s(file.get(), std::stoi(f[2]));
      std::string data;
      size_t mode = 0;
      long count = 0;
      for (size_t i = 4; i < f.size() && ok; ++i) {
        data = arg(i);
        size_t done = 0;
        while (done < data.size() && ok) {
          void *block;
          int size;
          ok = s.Next(&block, &size);
          if (!ok) break;
          const int k = std::min<size_t>(size, data.size() - done);
          std::copy(data.data() + done, data.data() + done + k,
                    static_cast<char *>(block));
          done += k;
          if (k < size) s.BackUp(size - k);
        }
        count += data.size();
        if (ok && s.ByteCount() != count) return "count";
        if (++mode % 3 == 0) ok = s.Flush() && ok;
      }
      if (f[3] == "close") {
        ok = s.Close() && ok;
      } else if (f[3] == "flush") {
        ok = s.Flush() && ok;
        ok = file->Flush() && ok;
      } else if (f[3] == "delete") {
        s.SetCloseOnDelete(true);
      }
    }
    if (f[3] == "flush" || f[3] == "none") {
      if (!file->Open()) return "closed";
      ok = file->Close() && ok;
    } else if (file->Open() && ok) {
      return "open";
    }
    return ok ? "ok" : "error";
  }
  if (op == "timer") {
    const auto t0 = std::chrono::steady_clock::now();
    nisaba::Timer timer;
    const auto t1 = std::chrono::steady_clock::now();
    double last = 0;
    bool up = true;
    for (int i = 0; i < 3; ++i) {
      absl::SleepFor(absl::Microseconds(std::stol(f[1]) / 3));
      const double e = timer.ElapsedMillis();
      up = up && e >= last;
      last = e;
    }
    const auto t2 = std::chrono::steady_clock::now();
    last = timer.ElapsedMillis();
    const auto t3 = std::chrono::steady_clock::now();
    out << std::chrono::duration<double, std::milli>(t2 - t1).count() << " "
        << last << " "
        << std::chrono::duration<double, std::milli>(t3 - t0).count() << " "
        << up;
    return out.str();
  }
  return "unknown";
}

}  // namespace

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::vector<std::string> f = absl::StrSplit(line, ' ');
    std::cout << Answer(f) << std::endl;
  }
  return 0;
}

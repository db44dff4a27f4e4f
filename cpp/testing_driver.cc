// Calls the testing library, one request per line, all strings in hex.
// Answers with one line each.
#include <cstdio>
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "gmock/gmock.h"
#include "gtest/gtest-spi.h"
#include "gtest/gtest.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "nisaba/interim/testing/testdata.h"
#include "nisaba/port/status-matchers.h"
#include "nisaba/port/status_macros.h"

namespace {

std::string Unhex(const std::string &h) {
  std::string out;
  for (size_t i = 1; i + 1 < h.size(); i += 2) {
    out.push_back(static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16)));
  }
  return out;
}

std::string Hex(absl::string_view s) {
  std::string out = "x";
  char b[4];
  for (const char c : s) {
    std::snprintf(b, sizeof b, "%02x", static_cast<unsigned char>(c));
    out += b;
  }
  return out;
}

std::string Show(const absl::Status &s) {
  return std::to_string(static_cast<int>(s.code())) + ":" + Hex(s.message());
}

int calls = 0;  // Of the expression in a macro.
int after = 0;  // Of what follows the macro.

template <typename T>
T Once(T value) {
  ++calls;
  return value;
}

absl::Status Return(const absl::Status &s) {
  RETURN_IF_ERROR(Once(s));
  ++after;
  RETURN_IF_ERROR(Once(s));
  ++after;
  return absl::OkStatus();
}

// In a branch without braces.
absl::Status Branch(bool b, const absl::Status &s) {
  if (b)
    RETURN_IF_ERROR(Once(s));
  else
    ++after;
  return absl::AlreadyExistsError("end");
}

absl::Status Null(const void *p) {
  RETURN_IF_NULL(Once(p));
  ++after;
  return absl::OkStatus();
}

struct Counted {
  explicit Counted(int v) : value(v) {}
  Counted(const Counted &o) : value(o.value), copies(o.copies + 1) {}
  Counted(Counted &&o) noexcept : value(o.value), copies(o.copies) {
    o.value = -1;
  }
  Counted &operator=(const Counted &o) {
    value = o.value;
    copies = o.copies + 1;
    return *this;
  }
  Counted &operator=(Counted &&o) noexcept {
    value = o.value;
    copies = o.copies;
    o.value = -1;
    return *this;
  }
  int value, copies = 0;
};

template <typename T>
absl::Status Assign(absl::StatusOr<T> value, T *to) {
  ASSIGN_OR_RETURN(*to, Once(std::move(value)));
  ++after;
  return absl::OkStatus();
}

std::string Dump(const testing::Rewrites &r) {
  std::ostringstream o;
  o << (r.has_comment() ? Hex(r.comment()) : "-");
  for (const auto &w : r.rewrite()) {
    o << " " << (w.has_comment() ? Hex(w.comment()) : "-") << ";"
      << (w.has_input() ? Hex(w.input()) : "-") << ";";
    for (const auto &s : w.rule()) o << Hex(s) << ",";
    o << ";";
    for (const auto &s : w.output()) o << Hex(s) << ",";
  }
  return o.str();
}

// How many fatal and other failures a function reports.
std::string Failures(const std::function<void()> &f) {
  testing::TestPartResultArray results;
  {
    testing::ScopedFakeTestPartResultReporter reporter(
        testing::ScopedFakeTestPartResultReporter::
            INTERCEPT_ONLY_CURRENT_THREAD, &results);
    f();
  }
  int fatal = 0, other = 0;
  for (int i = 0; i < results.size(); ++i) {
    const auto &r = results.GetTestPartResult(i);
    fatal += r.fatally_failed();
    other += r.nonfatally_failed();
  }
  return std::to_string(fatal) + "," + std::to_string(other);
}

// Whether a matcher takes a value, or its negation does not.
template <typename V, typename M>
std::string Matches(const V &value, const M &m) {
  const bool a = testing::Matches(m)(value);
  const bool b = testing::Matches(testing::Not(m))(value);
  testing::StringMatchResultListener listener;
  const bool c = testing::ExplainMatchResult(m, value, &listener);
  return a == c && a != b ? (a ? "1" : "0") : "?";
}

std::string Statuses(int code, const std::string &text, int value, int want) {
  using testing::status::IsOk;
  using testing::status::IsOkAndHolds;
  std::ostringstream o;
  const absl::Status s(static_cast<absl::StatusCode>(code), text);
  absl::StatusOr<int> v = value;
  absl::StatusOr<std::string> w = std::to_string(value);
  absl::StatusOr<std::unique_ptr<int>> u = std::make_unique<int>(value);
  absl::StatusOr<Counted> c = Counted(value);
  if (!s.ok()) {
    v = s;
    w = s;
    u = s;
    c = s;
  }
  o << "ok=" << Matches(s, IsOk()) << Matches(v, IsOk()) << Matches(w, IsOk())
    << Matches(u, IsOk());
  o << " holds=" << Matches(v, IsOkAndHolds(want))
    << Matches(w, IsOkAndHolds(std::to_string(want)))
    << Matches(v, IsOkAndHolds(testing::Ge(want)))
    << Matches(u, IsOkAndHolds(testing::Pointee(want)));
  int n = 0;
  o << " expect=" << Failures([&] { EXPECT_OK(s); ++n; })
    << ";" << Failures([&] { EXPECT_OK(v); ++n; })
    << ";" << Failures([&] { ASSERT_OK(s); ++n; })
    << ";" << Failures([&] { ASSERT_OK(w); ++n; }) << ";" << n;
  int got = -7;
  std::unique_ptr<int> held;
  o << " assign=" << Failures([&] { ASSERT_OK_AND_ASSIGN(got, v); }) << ";";
  o << Failures([&] {
    ASSERT_OK_AND_ASSIGN(held, (s.ok() ? absl::StatusOr<std::unique_ptr<int>>(
        std::make_unique<int>(value)) : s)); });
  o << ";" << got << ";" << (held ? *held : -7);
  calls = after = 0;
  o << " return=" << Show(Return(s)) << ";" << calls << ";" << after;
  calls = after = 0;
  o << " branch=" << Show(Branch(true, s)) << ";" << Show(Branch(false, s))
    << ";" << calls << ";" << after;
  calls = after = 0;
  const absl::Status null = Null(s.ok() ? &s : nullptr);
  o << " null=" << static_cast<int>(null.code()) << ";" << calls << ";"
    << after;
  calls = after = 0;
  int x = -7;
  o << " int=" << Show(Assign(v, &x)) << ";" << x << ";" << calls << ";"
    << after;
  calls = after = 0;
  std::unique_ptr<int> y;
  o << " unique=" << Show(Assign(std::move(u), &y)) << ";" << (y ? *y : -7)
    << ";" << calls << ";" << after;
  Counted z(-7);
  const absl::Status counted = Assign(std::move(c), &z);
  o << " counted=" << Show(counted) << ";" << z.value << ";" << z.copies;
  return o.str();
}

std::string Answer(const std::vector<std::string> &f) {
  if (f[0] == "status") {
    return Statuses(std::stoi(f[1]), Unhex(f[2]), std::stoi(f[3]),
                    std::stoi(f[4]));
  }
  const auto r = testing::GetRewritesTextProto(Unhex(f[1]));
  if (!r.ok()) return "unread";
  if (f[0] == "read") return "read " + Dump(*r);
  // copy FROM TO
  const absl::Status s = testing::SetRewritesTextProto(Unhex(f[2]), *r);
  return s.ok() ? "written" : "unwritten";
}

}  // namespace

int main(int argc, char **argv) {
  testing::InitGoogleTest(&argc, argv);
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::vector<std::string> fields;
    for (std::string f; in >> f;) fields.push_back(f);
    std::cout << Answer(fields) << std::endl;
  }
  return 0;
}

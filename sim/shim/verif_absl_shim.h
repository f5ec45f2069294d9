// Build shim, used only by the verification builds in /verif.
//
// The project needs an abseil with AbslStringify support (StrFormat "%v",
// Substitute and StrCat of user types); the abseil installed here is 20220623,
// which has none of it.  This header adds exactly that: it formats error
// messages and debug strings.  It takes no part in any modelling decision.
#ifndef VERIF_ABSL_SHIM_H_
#define VERIF_ABSL_SHIM_H_

#include <type_traits>

#include <cstdio>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"

namespace absl {
namespace verif_shim {

struct StringSink {
  std::string* out;
  void Append(absl::string_view s) { out->append(s.data(), s.size()); }
  void Append(size_t n, char c) { out->append(n, c); }
};

template <typename T, typename = void>
struct HasStringify : std::false_type {};
template <typename T>
struct HasStringify<T, std::void_t<decltype(AbslStringify(
                           std::declval<StringSink&>(),
                           std::declval<const T&>()))>> : std::true_type {};

template <typename T>
std::string ToStr(const T& v) {
  if constexpr (HasStringify<T>::value) {
    std::string s;
    StringSink sink{&s};
    AbslStringify(sink, v);
    return s;
  } else if constexpr (std::is_same_v<T, bool>) {
    return v ? "true" : "false";
  } else if constexpr (std::is_enum_v<T>) {
    return std::to_string(static_cast<long long>(v));
  } else if constexpr (std::is_convertible_v<const T&, absl::string_view>) {
    return std::string(absl::string_view(v));
  } else if constexpr (std::is_floating_point_v<T>) {
    char buf[64];
    std::snprintf(buf, sizeof buf, "%g", static_cast<double>(v));
    return buf;
  } else if constexpr (std::is_same_v<T, char>) {
    return std::string(1, v);
  } else if constexpr (std::is_arithmetic_v<T>) {
    return std::to_string(v);
  } else {
    return "?";
  }
}

// A pass-through for arguments abseil already understands.
template <typename T>
decltype(auto) Arg(const T& v) {
  if constexpr (HasStringify<T>::value) {
    return ToStr(v);
  } else {
    return (v);
  }
}

template <typename T>
std::string OneSpec(const std::string& spec, const T& v) {
  char conv = spec.back();
  char buf[512];
  if (conv == 'v' || conv == 's') {
    std::string s = ToStr(v);
    if (spec.size() == 2) return s;
    std::string f = spec;
    f.back() = 's';
    std::snprintf(buf, sizeof buf, f.c_str(), s.c_str());
    return buf;
  }
  if constexpr (std::is_floating_point_v<T>) {
    std::snprintf(buf, sizeof buf, spec.c_str(), static_cast<double>(v));
    return buf;
  } else if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) {
    std::string f = spec;
    f.insert(f.size() - 1, "ll");
    std::snprintf(buf, sizeof buf, f.c_str(), static_cast<long long>(v));
    return buf;
  } else {
    return ToStr(v);
  }
}

template <typename... A>
std::string Format(absl::string_view fmt, const A&... args) {
  std::string out;
  size_t index = 0;
  for (size_t i = 0; i < fmt.size(); ++i) {
    if (fmt[i] != '%') {
      out += fmt[i];
      continue;
    }
    if (i + 1 < fmt.size() && fmt[i + 1] == '%') {
      out += '%';
      ++i;
      continue;
    }
    std::string spec = "%";
    for (++i; i < fmt.size(); ++i) {
      char c = fmt[i];
      if (c == 'l' || c == 'h' || c == 'z') continue;
      spec += c;
      if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) break;
    }
    size_t k = 0;
    ((k++ == index ? (void)(out += OneSpec(spec, args)) : (void)0), ...);
    ++index;
  }
  return out;
}

template <typename... A>
std::string Subst(absl::string_view fmt, const A&... args) {
  std::vector<std::string> parts{ToStr(args)...};
  std::string out;
  for (size_t i = 0; i < fmt.size(); ++i) {
    if (fmt[i] == '$' && i + 1 < fmt.size()) {
      char c = fmt[++i];
      if (c == '$') {
        out += '$';
      } else if (c >= '0' && c <= '9' &&
                 static_cast<size_t>(c - '0') < parts.size()) {
        out += parts[c - '0'];
      }
    } else {
      out += fmt[i];
    }
  }
  return out;
}

}  // namespace verif_shim

template <typename... A>
std::string VerifShimStrFormat(absl::string_view fmt, const A&... args) {
  return verif_shim::Format(fmt, args...);
}
template <typename... A>
std::string VerifShimSubstitute(absl::string_view fmt, const A&... args) {
  return verif_shim::Subst(fmt, args...);
}
}  // namespace absl
#endif  // VERIF_ABSL_SHIM_H_

// stand-in for iboB/itlib strutil.hpp
#pragma once
#include <string_view>
namespace itlib {
inline constexpr bool starts_with(std::string_view s, std::string_view p) noexcept { return s.substr(0, p.size()) == p; }
inline constexpr bool starts_with(std::string_view s, char c) noexcept { return !s.empty() && s.front() == c; }
inline constexpr bool ends_with(std::string_view s, std::string_view p) noexcept { return s.size() >= p.size() && s.substr(s.size() - p.size()) == p; }
inline constexpr bool ends_with(std::string_view s, char c) noexcept { return !s.empty() && s.back() == c; }
inline constexpr std::string_view make_string_view(const char* b, const char* e) noexcept { return {b, std::size_t(e - b)}; }
}

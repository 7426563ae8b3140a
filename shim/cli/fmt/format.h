// Stand-in for {fmt} 10: the tool only prints messages, whose text is not checked.
#pragma once
#include <cstdio>
#include <string>
#include <string_view>
namespace fmt {
template<typename... T> void print(std::string_view, T&&...) {}
template<typename... T> void print(std::FILE*, std::string_view, T&&...) {}
template<typename... T> void println(std::string_view, T&&...) {}
template<typename... T> void println(std::FILE*, std::string_view, T&&...) {}
template<typename... T> auto format(std::string_view f, T&&...) -> std::string { return std::string{f}; }
}  // namespace fmt

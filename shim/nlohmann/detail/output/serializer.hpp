// Stand-in for nlohmann's text serializer, used only when /repo's sources are
// compiled for symbolic execution. It keeps the observable contract the program
// relies on - one call writes one JSON text, and a string that is not valid UTF-8
// throws type_error 316 after part of the text has been written - but instead of
// formatting (possibly symbolic) values it registers a deep copy of the document
// and writes a token naming it, so the harness can inspect the document itself.
#pragma once
#include <algorithm>
#include <array>
#include <clocale>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <limits>
#include <string>
#include <iomanip>
#include <type_traits>
#include <utility>
#include <vector>
#include <nlohmann/detail/conversions/to_chars.hpp>
#include <nlohmann/detail/exceptions.hpp>
#include <nlohmann/detail/macro_scope.hpp>
#include <nlohmann/detail/meta/cpp_future.hpp>
#include <nlohmann/detail/output/binary_writer.hpp>
#include <nlohmann/detail/output/output_adapters.hpp>
#include <nlohmann/detail/string_concat.hpp>
#include <nlohmann/detail/value_t.hpp>

template<class B> std::vector<B>& symx_json_reg() { static std::vector<B> v; return v; }
inline unsigned symx_utf8_bad(const char* p, std::size_t n) {
  unsigned bad = 0, a1 = 0, a2 = 0, a3 = 0, prev = 0;  // a_k: continuation expected k bytes ahead
  for (std::size_t i = 0; i < n; i++) {
    const unsigned c = static_cast<unsigned char>(p[i]);
    const unsigned cont = (c & 0xC0u) == 0x80u;
    const unsigned l2 = (c >= 0xC2u) & (c <= 0xDFu), l3 = (c & 0xF0u) == 0xE0u, l4 = (c >= 0xF0u) & (c <= 0xF4u);
    bad |= (c == 0xC0u) | (c == 0xC1u) | (c > 0xF4u);
    bad |= a1 ^ cont;
    bad |= ((prev == 0xE0u) & (c < 0xA0u)) | ((prev == 0xEDu) & (c > 0x9Fu)) | ((prev == 0xF0u) & (c < 0x90u)) | ((prev == 0xF4u) & (c > 0x8Fu));
    a1 = a2 | l2 | l3 | l4; a2 = a3 | l3 | l4; a3 = l4;
    prev = c;
  }
  return bad | a1 | a2 | a3;
}

NLOHMANN_JSON_NAMESPACE_BEGIN
namespace detail
{
enum class error_handler_t { strict, replace, ignore };

template<typename BasicJsonType>
class serializer
{
  public:
    serializer(output_adapter_t<char> s, const char, error_handler_t eh = error_handler_t::strict) : o(std::move(s)), error_handler(eh) {}
    serializer(const serializer&) = delete;
    serializer& operator=(const serializer&) = delete;
    ~serializer() = default;

    void dump(const BasicJsonType& val, const bool pretty_print, const bool ensure_ascii, const unsigned int, const unsigned int = 0)
    {
        (void)ensure_ascii;
        if (error_handler == error_handler_t::strict && bad(val)) {
            o->write_characters("{\"\x02", 3);
            JSON_THROW(type_error::create(316, "invalid UTF-8 byte", &val));
        }
        auto& reg = symx_json_reg<BasicJsonType>();
        const std::size_t idx = reg.size();
        reg.push_back(val);
        char buf[8] = {'\x01', 0, 0, 0, 0, 0, pretty_print ? '\n' : '\x01', 0};
        for (int i = 0; i < 5; i++) buf[5 - i] = static_cast<char>('A' + (idx >> (4 * i) & 15));
        o->write_characters(buf, 7);
    }
  private:
    static bool bad(const BasicJsonType& v)
    {
        if (v.is_string()) { const auto& s = *v.template get_ptr<const typename BasicJsonType::string_t*>(); return symx_utf8_bad(s.data(), s.size()) != 0; }
        if (v.is_array()) { for (const auto& e : v) if (bad(e)) return true; return false; }
        if (v.is_object()) { for (auto it = v.begin(); it != v.end(); ++it) { if (symx_utf8_bad(it.key().data(), it.key().size())) return true; if (bad(it.value())) return true; } return false; }
        return false;
    }
    output_adapter_t<char> o = nullptr;
    error_handler_t error_handler;
};
}  // namespace detail
NLOHMANN_JSON_NAMESPACE_END

// P03: conversion of well-formed text between UTF-8, UTF-16, UTF-32 and wchar_t is exact, whatever the route.
#include "ref.hpp"
#include <libunicode/capi.h>
#include <libunicode/convert.h>
#include <libunicode/utf8.h>
#include <list>

using namespace unicode;
using ref::u32;
namespace
{
template <typename T>
using str = std::basic_string<T>;
template <typename T>
using view = std::basic_string_view<T>;

template <typename T>
void eq(char const* route, u32 const& in, str<T> const& got, str<T> const& want)
{
    h::count("conversions compared");
    if (got != want)
        h::violation(route, h::hex(in), "got " + h::hex(got) + " want " + h::hex(want));
}

// every way the library offers to turn an S string into a T string
template <typename T, typename S>
void routes(char const* name, u32 const& in, str<S> const& src, str<T> const& want)
{
    h::exact<S> e(src); // the input ends exactly at the end of its allocation
    std::string n = name;
    eq<T>((n + "/string").c_str(), in, convert_to<T>(e.view()), want);
    {
        str<T> out;
        convert_to<T>(e.view(), std::back_inserter(out));
        eq<T>((n + "/back_inserter").c_str(), in, out, want);
    }
    {
        h::exact<T> out(want.size()); // no room for a single unit too many
        auto* end = convert_to<T>(e.view(), out.data());
        if (size_t(end - out.data()) != want.size())
            h::violation(n + "/pointer-end", h::hex(in), "wrote " + std::to_string(end - out.data()) + " units, want " + std::to_string(want.size()));
        else
            eq<T>((n + "/pointer").c_str(), in, str<T>(out.view()), want);
    }
}

template <typename S>
void iter_decode(char const* name, u32 const& in, str<S> const& src)
{
    h::exact<S> e(src);
    u32 out;
    auto const* i = e.data();
    auto const* end = e.data() + e.size();
    decoder<S> d {};
    while (i != end)
    {
        auto c = d(i);
        if (!c || i > end)
        {
            h::violation(std::string(name) + "/iterator-decoder-rejects", h::hex(in), "at unit " + std::to_string(i - e.data()));
            return;
        }
        out += *c;
    }
    eq<char32_t>((std::string(name) + "/iterator-decoder").c_str(), in, out, in);
}

void one(u32 const& s)
{
    h::mark("well-formed", s);
    auto s8 = ref::to8(s);
    auto s16 = ref::to16(s);
    std::wstring sw(s.begin(), s.end());
    static_assert(sizeof(wchar_t) == 4);
    routes<char>("32->8", s, s, s8);
    routes<char16_t>("32->16", s, s, s16);
    routes<char32_t>("32->32", s, s, s);
    routes<char32_t>("8->32", s, s8, s);
    routes<char16_t>("8->16", s, s8, s16);
    routes<char>("8->8", s, s8, s8);
    routes<wchar_t>("8->w", s, s8, sw);
    routes<char32_t>("16->32", s, s16, s);
    routes<char>("16->8", s, s16, s8);
    routes<char16_t>("16->16", s, s16, s16);
    routes<wchar_t>("32->w", s, s, sw);
    routes<wchar_t>("16->w", s, s16, sw);
    routes<char>("w->8", s, sw, s8);
    routes<char16_t>("w->16", s, sw, s16);
    routes<char32_t>("w->32", s, sw, s);
    iter_decode<char>("8", s, s8);
    iter_decode<char16_t>("16", s, s16);
    h::exact<char> e8(s8);
    h::exact<char32_t> e32(s);
    eq<char32_t>("from_utf8/string", s, from_utf8(e8.view()), s);
    eq<char>("to_utf8/u32string", s, to_utf8(s), s8);
    eq<char>("to_utf8/view", s, to_utf8(e32.view()), s8);
    eq<char>("to_utf8/pointer", s, to_utf8(e32.data(), e32.size()), s8);
    { // bytewise decoders
        decoder<char> d {};
        utf8_decoder_state st {}, st2 {};
        u32 a, b, c;
        for (char ch: s8)
        {
            if (auto x = d(uint8_t(ch)))
                a += *x;
            auto r = from_utf8(st, uint8_t(ch));
            if (auto* ok = std::get_if<Success>(&r))
                b += ok->value;
            else if (std::get_if<Invalid>(&r))
                h::violation("from_utf8/byte-invalid", h::hex(s), "well-formed byte reported Invalid");
            auto v = from_utf8i(st2, uint8_t(ch));
            if (v < 0x110000)
                c += char32_t(v);
            else if (v != unsigned(-1))
                h::violation("from_utf8i/byte", h::hex(s), "returned " + std::to_string(v));
        }
        eq<char32_t>("decoder<char>/bytewise", s, a, s);
        eq<char32_t>("from_utf8/bytewise", s, b, s);
        eq<char32_t>("from_utf8i/bytewise", s, c, s);
    }
    { // pointer API, character by character
        u32 out;
        size_t pos = 0;
        while (pos < e8.size())
        {
            size_t n = 0;
            auto r = from_utf8(e8.data() + pos, &n);
            auto* ok = std::get_if<Success>(&r);
            if (!ok || !n || pos + n > e8.size())
            {
                h::violation("from_utf8/pointer-rejects", h::hex(s), "at byte " + std::to_string(pos));
                break;
            }
            out += ok->value;
            pos += n;
        }
        if (pos >= e8.size())
            eq<char32_t>("from_utf8/pointer", s, out, s);
    }
    { // C API
        auto* p = reinterpret_cast<u32_char_t const*>(e32.data());
        h::exact<char> out(s8.size());
        auto n = u32u8_convert(p, e32.size(), out.data(), out.size());
        if (n != int(s8.size()))
            h::violation("u32u8_convert/length", h::hex(s), "returned " + std::to_string(n) + " for a buffer of exactly " + std::to_string(s8.size()));
        else
            eq<char>("u32u8_convert", s, std::string(out.view()), s8);
        for (size_t shortBy: { size_t(1), s8.size() / 2 })
            if (shortBy && shortBy <= s8.size())
            {
                h::exact<char> small(s8.size() - shortBy);
                if (u32u8_convert(p, e32.size(), small.data(), small.size()) != -1)
                    h::violation("u32u8_convert/short", h::hex(s), "accepted a buffer short by " + std::to_string(shortBy));
            }
        auto st = u8u32_stream_convert_create();
        u32 dec;
        for (char ch: s8)
        {
            u32_char_t o = 0xDEADBEEF;
            auto r = u8u32_stream_convert_run(st, ch, &o);
            if (r == 1)
                dec += char32_t(o);
            else if (r != 0 || o != 0xDEADBEEF)
                h::violation("u8u32_stream/incomplete-touches-output", h::hex(s), "returned " + std::to_string(r));
        }
        u8u32_stream_convert_destroy(&st);
        if (st)
            h::violation("u8u32_stream/destroy", h::hex(s), "handle not reset");
        eq<char32_t>("u8u32_stream", s, dec, s);
    }
    h::seen("distinct strings", h::hash_str(s));
    if (s8.size() != s.size())
        h::g.nontrivial++;
}

void single(char32_t c)
{
    h::mark("scalar", &c, 4, 4);
    u32 s(1, c);
    auto s8 = ref::to8(s);
    auto s16 = ref::to16(s);
    eq<char>("single/32->8", s, convert_to<char>(c), s8);
    eq<char16_t>("single/32->16", s, convert_to<char16_t>(c), s16);
    eq<char32_t>("single/32->32", s, convert_to<char32_t>(c), s);
    if (c < 0x80)
    {
        eq<char32_t>("single/8->32", s, convert_to<char32_t>(char(c)), s);
        eq<char16_t>("single/8->16", s, convert_to<char16_t>(char(c)), s16);
    }
    if (c < 0x10000)
    {
        eq<char32_t>("single/16->32", s, convert_to<char32_t>(char16_t(c)), s);
        eq<char>("single/16->8", s, convert_to<char>(char16_t(c)), s8);
    }
    eq<char>("to_utf8/char", s, to_utf8(c), s8);
    h::exact<uint8_t> b(s8.size());
    auto n = to_utf8(c, b.data());
    if (n != s8.size())
        h::violation("to_utf8/bytes-length", h::cphex(c), "wrote " + std::to_string(n));
    else
        eq<char>("to_utf8/bytes", s, std::string(b.data(), b.data() + n), s8);
    h::count("scalars, exhaustive");
}
} // namespace

int run_harness()
{
    ref::load();
    ref::pools();
    h::shard_loop(0x1100, [](uint64_t b) {
        for (char32_t c = char32_t(b * 256); c < (b + 1) * 256; ++c)
            if (ref::scalar(c))
            {
                single(c);
                if (h::g.thorough || c % 7 == h::g.seed % 7 || c < 0x3000)
                    one(u32(1, c));
            }
    });
    one({});
    h::Rng r(h::g.seed, 3, uint64_t(h::g.shard));
    // ASCII runs of every length around the vector widths, broken by one character of each length class
    h::shard_loop(280, [&](uint64_t n) {
        for (char32_t c: { 0x7Fu, 0x80u, 0x7FFu, 0x800u, 0xD7FFu, 0xE000u, 0xFFFFu, 0x10000u, 0x10FFFFu, 0u })
        {
            u32 s;
            for (uint64_t i = 0; i < n; ++i)
                s += char32_t(r.below(0x80));
            one(s);
            one(s + c);
            one(u32(1, c) + s);
            u32 t = s;
            t.insert(r.below(uint32_t(t.size() + 1)), 1, c);
            one(t + s + c);
        }
    });
    h::shard_loop(h::tier(16000, 400000), [&](uint64_t) { one(ref::gen_any_text(r, 40)); });
    h::shard_loop(h::tier(1600, 40000), [&](uint64_t) {
        // mixed runs
        u32 s;
        for (uint32_t k = r.below(6); k-- > 0;)
        {
            for (uint32_t n = r.below(90); n-- > 0;)
                s += char32_t(r.below(0x80));
            for (uint32_t n = r.below(6); n-- > 0;)
                s += ref::any_scalar(r);
        }
        one(s);
    });
    auto const long_text = [&](u32 const& s) { one(s); };
    ref::long_texts(r, long_text);
    ref::huge_texts(long_text);
    h::sample("random text", h::hex(ref::gen_any_text(r, 20)));
    return 0;
}

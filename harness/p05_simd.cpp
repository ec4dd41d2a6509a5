// P05: the result of the vectorised routines does not depend on the vector width, alignment or run length.
#include "malformed.hpp"
#include <libunicode/convert.h>
#include <libunicode/scan.h>
#include <libunicode/utf8.h>
#ifndef PUBLIC_ONLY // built that way if the units are no longer reachable by these names: only what they are dispatched to is judged then
    #include <libunicode/convert_simd_impl.h>
    #include <libunicode/scan_simd_impl.h>
    #include <libunicode/simd_detector.h>
#endif

using namespace unicode;
using ref::u32;
namespace
{
#if (defined(LIBUNICODE_USE_INTRINSICS) || defined(LIBUNICODE_USE_STD_SIMD)) && !defined(PUBLIC_ONLY)
    #define WIDE 1
#else
    #define WIDE 0
#endif
bool has256, has512;

struct Impl
{
    char const* name;
    size_t (*to32)(char const*, size_t, char32_t*) noexcept;
    size_t (*to16)(char const*, size_t, char16_t*) noexcept;
    size_t (*scan)(std::string_view, size_t) noexcept;
};
std::vector<Impl> impls;

#ifdef PUBLIC_ONLY
template <typename T>
size_t public_convert(char const* in, size_t n, T* out) noexcept
{
    auto const s = convert_to<T>(std::string_view(in, n));
    if (s.size() <= n)
        std::copy(s.begin(), s.end(), out);
    return s.size();
}
size_t public_scan(std::string_view s, size_t limit) noexcept
{
    size_t n = 0; // how far scan_text gets is judged by P17: here on the part that is ASCII text
    while (n < s.size() && uint8_t(s[n]) >= 0x20 && uint8_t(s[n]) < 0x80)
        ++n;
    scan_state st {};
    st.next = s.data();
    return scan_text(st, s.substr(0, n), limit).count;
}
#endif

/// Text placed at a given offset within an allocation that ends with the text.
struct Placed
{
    std::unique_ptr<char[]> p;
    std::string_view v;
    Placed(std::string const& s, size_t off): p(new char[s.size() + off])
    {
        if (!s.empty())
            std::memcpy(p.get() + off, s.data(), s.size());
        v = { p.get() + off, s.size() };
    }
};

void check(std::string const& in, size_t off, size_t maxCols)
{
    h::mark("simd", in);
    Placed t(in, off);
    // scalar oracle: the byte-wise decoder (pinned by P03/P04) and the documented definition of ASCII text
    u32 want;
    {
        decoder<char> d {};
        for (char c: in)
            if (auto x = d(uint8_t(c)))
                want += *x;
    }
    std::u16string want16;
    for (auto c: want)
        encoder<char16_t> {}(c, std::back_inserter(want16));
    size_t wantScan = 0;
    while (wantScan < in.size() && wantScan < maxCols && uint8_t(in[wantScan]) >= 0x20 && uint8_t(in[wantScan]) < 0x80)
        ++wantScan;
    for (auto& m: impls)
    {
        h::count((std::string("calls of ") + m.name).c_str());
        if (m.to32)
        {
            h::exact<char32_t> o(in.size());
            auto n = m.to32(t.v.data(), t.v.size(), o.data());
            if (n > in.size() || u32(o.data(), n) != want)
                h::violation(std::string("to32/") + m.name, h::hex(in), "alignment " + std::to_string(off) + ": " + h::hex(u32(o.data(), std::min(n, in.size()))) + " want " + h::hex(want));
            h::exact<char16_t> o16(in.size());
            n = m.to16(t.v.data(), t.v.size(), o16.data());
            if (n > in.size() || std::u16string(o16.data(), n) != want16)
                h::violation(std::string("to16/") + m.name, h::hex(in), "alignment " + std::to_string(off) + ": " + h::hex(std::u16string(o16.data(), std::min(n, in.size()))) + " want " + h::hex(want16));
        }
        if (m.scan)
        {
            auto n = m.scan(t.v, maxCols);
            if (n != wantScan)
                h::violation(std::string("scan/") + m.name, h::hex(in), "limit " + std::to_string(maxCols) + ": " + std::to_string(n) + " want " + std::to_string(wantScan));
        }
    }
    if (in.size() >= 16)
    {
        h::g.nontrivial++;
        h::seen("distinct (text, alignment)", h::hash_str(in) ^ h::mix(off));
    }
}
} // namespace

int run_harness()
{
    ref::load();
    ref::pools();
#if WIDE
    has256 = __builtin_cpu_supports("avx2");
    has512 = __builtin_cpu_supports("avx512f") && __builtin_cpu_supports("avx512bw") && detail::max_simd_size() == 512;
#endif
#ifdef PUBLIC_ONLY
    impls.push_back({ "dispatch", &public_convert<char32_t>, &public_convert<char16_t>, &public_scan });
#else
    impls.push_back({ "128", &detail::convert_utf8_to_utf32_simd<128>, &detail::convert_utf8_to_utf16_simd<128>, &detail::scan_for_text_ascii_simd<128> });
    impls.push_back({ "dispatch", &detail::convert_utf8_to_utf32, &detail::convert_utf8_to_utf16, &detail::scan_for_text_ascii });
#endif
#if WIDE
    if (has256)
        impls.push_back({ "256", &detail::convert_utf8_to_utf32_256, &detail::convert_utf8_to_utf16_256, &detail::scan_for_text_ascii_256 });
    if (has512)
        impls.push_back({ "512", &detail::convert_utf8_to_utf32_512, &detail::convert_utf8_to_utf16_512, &detail::scan_for_text_ascii_512 });
    h::count("256-bit unit available", has256);
    h::count("512-bit unit available", has512);
    auto ms = detail::max_simd_size();
    if (ms != 128 && ms != 256 && ms != 512)
        h::violation("max_simd_size", std::to_string(ms), "not a vector width");
    if ((ms == 256 && !has256) || (ms == 512 && !__builtin_cpu_supports("avx512bw")))
        h::violation("max_simd_size/unsupported", std::to_string(ms), "the CPU does not support it");
#endif
    h::Rng r(h::g.seed, 5, uint64_t(h::g.shard));
    // every length around the widths x every position and kind of the first byte that is not printable ASCII
    static unsigned char const stop[] = { 0x00, 0x09, 0x1F, 0x20, 0x7E, 0x7F, 0x80, 0x9F, 0xA0, 0xC3, 0xE2, 0xF0, 0xFF };
    h::shard_loop(200, [&](uint64_t n) {
        std::string s;
        for (uint64_t i = 0; i < n; ++i)
            s += char(0x20 + r.below(0x60));
        check(s, r.below(64), size_t(-1));
        check(s, r.below(64), r.below(uint32_t(n + 2)));
        for (uint64_t p = 0; p < n; ++p)
        {
            auto t = s;
            t[p] = char(stop[(p + h::g.seed) % sizeof stop]);
            check(t, r.below(64), size_t(-1));
            if (h::g.thorough || p % 3 == 0)
            {
                t = s;
                t[p] = char(stop[r.below(sizeof stop)]);
                t[r.below(uint32_t(n))] = char(stop[r.below(sizeof stop)]);
                check(t, r.below(64), r.below(uint32_t(n + 2)));
            }
        }
    });
    // every byte value at every position of a vector
    h::shard_loop(256, [&](uint64_t b) {
        for (size_t p = 0; p < 66; ++p)
        {
            std::string s(132, 'x');
            for (auto& c: s)
                c = char(0x20 + r.below(0x60));
            s[p + (p & 1 ? 64 : 0)] = char(b);
            check(s, p % 64, size_t(-1));
        }
    });
    h::shard_loop(h::tier(24000, 800000), [&](uint64_t) {
        std::string s;
        for (uint32_t k = r.below(5); k-- > 0;)
        {
            if (r.chance(2, 3))
                for (uint32_t n = r.below(150); n-- > 0;)
                    s += char(0x20 + r.below(0x60));
            s += r.chance(1, 3) ? mal::gen(r) : ref::to8(ref::gen_any_text(r, 6));
        }
        check(s, r.below(64), r.chance(1, 2) ? size_t(-1) : r.below(uint32_t(s.size() + 3)));
    });
    return 0;
}

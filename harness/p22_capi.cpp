// P22: the C API keeps to its buffers and handles, and says what the C++ API (and the models) say.
#include "malformed.hpp"
#include "ref.hpp"
#include <libunicode/capi.h>
#include <libunicode/convert.h>
#include <sanitizer/allocator_interface.h>
#include <utility>

using ref::u32;
namespace
{
/// the heap, as seen by the sanitizer's allocation hooks
struct Heap
{
    static inline int64_t live = 0;
    static inline bool on = false;
    static void alloc(void const volatile*, size_t)
    {
        if (on)
            ++live;
    }
    static void release(void const volatile* p)
    {
        if (on && p)
            --live;
    }
};
struct Balance
{
    char const* who;
    std::string input;
    Balance(char const* who, std::string input): who { who }, input { std::move(input) }
    {
        Heap::live = 0;
        Heap::on = true;
    }
    ~Balance()
    {
        Heap::on = false;
        if (Heap::live)
            h::violation(std::string("heap-balance/") + who, input, std::to_string(Heap::live) + " blocks not returned");
        h::count("heap balances checked");
    }
};
template <typename A, typename B>
void eq(char const* key, std::string const& in, A got, B want)
{
    h::count("results compared");
    if (int64_t(got) != int64_t(want))
    {
        auto was = std::exchange(Heap::on, false);
        h::violation(key, in, "got " + std::to_string(int64_t(got)) + " want " + std::to_string(int64_t(want)));
        Heap::on = was;
    }
}
unsigned base_width(ref::u32v s)
{
    auto b = ref::grapheme_bounds(s);
    unsigned r = 0;
    for (size_t i = 0; i + 1 < b.size(); ++i)
        r += unsigned(ref::cp_width(s[b[i]]));
    return r;
}
void measures(u32 const& s)
{
    h::mark("measure", s);
    auto in = h::hex(s);
    auto bounds = ref::grapheme_bounds(s);
    auto clusters = bounds.empty() ? 0 : bounds.size() - 1;
    auto w = ref::text_width(s);
    auto wb = base_width(s);
    h::exact<uint32_t> e(s.size());
    std::memcpy(e.data(), s.data(), s.size() * 4);
    {
        Balance b("u32", in);
        eq("u32_gc_count", in, u32_gc_count(e.data(), e.size()), clusters);
        eq("u32_gc_width", in, u32_gc_width(e.data(), e.size(), GC_WIDTH_MODE_MODIFIABLE), w);
        eq("u32_gc_width/base", in, u32_gc_width(e.data(), e.size(), GC_WIDTH_MODE_NON_MODIFIABLE), wb);
    }
    if (std::all_of(s.begin(), s.end(), ref::scalar))
    {
        auto b8 = ref::to8(s);
        h::exact<char> e8(b8);
        Balance b("u8", in);
        eq("u8_gc_count", in, u8_gc_count(e8.data(), e8.size()), clusters);
        eq("u8_gc_width", in, u8_gc_width(e8.data(), e8.size(), GC_WIDTH_MODE_MODIFIABLE), w);
        eq("u8_gc_width/base", in, u8_gc_width(e8.data(), e8.size(), GC_WIDTH_MODE_NON_MODIFIABLE), wb);
    }
    if (s.size() > 1)
    {
        h::g.nontrivial++;
        h::seen("distinct texts", h::hash_str(s));
    }
}
void damaged(std::string const& s)
{
    h::mark("damaged", s);
    auto in = h::hex(s);
    h::exact<char> e(s);
    auto dec = unicode::convert_to<char32_t>(e.view());
    Balance b("damaged", in);
    eq("u8_gc_count/damaged", in, u8_gc_count(e.data(), e.size()), u32_gc_count(reinterpret_cast<u32_char_t const*>(dec.data()), dec.size()));
    for (int mode = 0; mode < 2; ++mode)
        eq("u8_gc_width/damaged", in, u8_gc_width(e.data(), e.size(), mode), u32_gc_width(reinterpret_cast<u32_char_t const*>(dec.data()), dec.size(), mode));
    h::count("damaged texts");
}
/// u32u8_convert() into every buffer size around the needed one
void convert(u32 const& s, bool scalars)
{
    h::mark("convert", s);
    auto in = h::hex(s);
    h::exact<uint32_t> src(s.size());
    std::memcpy(src.data(), s.data(), s.size() * 4);
    std::string want;
    std::vector<size_t> ends { 0 };
    if (scalars)
        for (auto c: s)
        {
            ref::put8(c, want);
            ends.push_back(want.size());
        }
    else
    {
        // what one character yields by itself
        for (auto c: s)
        {
            char buf[8];
            uint32_t one = c;
            auto n = u32u8_convert(&one, 1, buf, sizeof buf);
            if (n < 0 || n > 4)
            {
                h::violation("u32u8/length", in, std::to_string(n) + " bytes for " + h::cphex(c));
                return;
            }
            want.append(buf, size_t(n));
            ends.push_back(want.size());
        }
    }
    auto lo = want.size() > 40 ? want.size() - 8 : 0;
    for (size_t cap = lo; cap <= want.size() + 3; ++cap)
    {
        // the buffer is a window in the middle of a guarded block: bytes beyond it must stay
        h::exact<char> dst(cap);
        std::memset(dst.data(), 0x5A, cap);
        int n;
        {
            Balance b("convert", in);
            n = u32u8_convert(src.data(), src.size(), dst.data(), cap);
        }
        h::count("conversions into a buffer");
        if (cap >= want.size())
        {
            if (n != int(want.size()) || std::memcmp(dst.data(), want.data(), want.size()))
                h::violation("u32u8/result", in, "capacity " + std::to_string(cap) + ": " + std::to_string(n) + " bytes, want " + std::to_string(want.size()));
            for (size_t i = want.size(); i < cap; ++i)
                if (dst.data()[i] != 0x5A)
                    h::violation("u32u8/beyond", in, "capacity " + std::to_string(cap) + ": byte " + std::to_string(i) + " written behind the result");
        }
        else
        {
            h::count("conversions that do not fit");
            if (n != -1)
                h::violation("u32u8/overflow", in, "capacity " + std::to_string(cap) + " for " + std::to_string(want.size()) + " bytes: returned " + std::to_string(n));
            // what has been converted is a sequence of whole characters
            size_t k = 0;
            while (k < cap && dst.data()[k] == want[k])
                ++k;
            bool whole = false;
            for (auto e: ends)
                if (e <= k && e <= cap && std::all_of(dst.data() + e, dst.data() + cap, [](char x) { return x == 0x5A; }))
                    whole = true;
            if (!whole)
                h::violation("u32u8/partial", in, "capacity " + std::to_string(cap) + ": " + h::hex(dst.view()));
        }
    }
    // buffers whose size needs more than 31 or 32 bits
    static size_t const hugeSize = (size_t(1) << 32) + 4096;
    static char* const huge = [] {
        auto p = mmap(nullptr, hugeSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        return p == MAP_FAILED ? nullptr : static_cast<char*>(p);
    }();
    if (huge)
    {
        static unsigned turn = 0;
        static size_t const caps[] = { size_t(1) << 32, (size_t(1) << 32) + 1, size_t(1) << 31, (size_t(1) << 31) + 3, (size_t(1) << 32) - 1, 65536 + 2, 65536, 256 };
        auto const cap = caps[++turn % (sizeof caps / sizeof *caps)];
        if (cap >= want.size())
        {
            auto const n = u32u8_convert(src.data(), src.size(), huge, cap);
            if (n != int(want.size()) || std::memcmp(huge, want.data(), want.size()))
                h::violation("u32u8/result", in, "capacity " + std::to_string(cap) + ": " + std::to_string(n) + " bytes, want " + std::to_string(want.size()));
            h::count("conversions into a large buffer");
        }
    }
    if (!s.empty())
        eq("u32u8/empty", in, u32u8_convert(src.data(), 0, nullptr, 0), 0);
}
void streams(h::Rng& r)
{
    // several handles, fed in turns, created and destroyed at different times
    struct S
    {
        u8u32_stream_state_t st;
        std::string in;
        size_t at = 0;
        u32 want, got;
        std::unique_ptr<unicode::decoder<char>> twin;
        bool well;
    };
    std::vector<S> v;
    auto n = 1 + r.below(4);
    std::string all;
    for (uint32_t i = 0; i < n; ++i)
    {
        S s;
        u32 t;
        for (auto c: ref::gen_any_text(r, 10))
            t += ref::scalar(c) ? c : U'x';
        s.in = ref::to8(t);
        s.want = t;
        s.well = !r.chance(1, 3);
        if (!s.well)
            s.in = mal::gen(r);
        s.twin = std::make_unique<unicode::decoder<char>>();
        s.st = nullptr;
        v.push_back(std::move(s));
        all += v.back().in + "|";
    }
    h::mark("streams", all);
    auto in = h::hex(all);
    Heap::live = 0;
    Heap::on = true;
    for (auto& s: v)
        s.st = u8u32_stream_convert_create();
    Heap::on = false;
    size_t todo = 0;
    for (auto& s: v)
        todo += s.in.size();
    while (todo)
    {
        auto& s = v[r.below(n)];
        if (s.at == s.in.size())
            continue;
        auto byte = s.in[s.at++];
        --todo;
        h::exact<uint32_t> out(size_t(1));
        out.data()[0] = 0xA5A5A5A5;
        Heap::on = true;
        auto ok = u8u32_stream_convert_run(s.st, byte, out.data());
        Heap::on = false;
        auto twin = (*s.twin)(uint8_t(byte));
        h::count("stream steps");
        if (ok != 0 && ok != 1)
            h::violation("stream/return", in, std::to_string(ok));
        if (!ok && out.data()[0] != 0xA5A5A5A5)
            h::violation("stream/output-touched", in, "byte " + std::to_string(s.at - 1));
        if (bool(ok) != twin.has_value() || (ok && out.data()[0] != *twin))
            h::violation("stream/differs-from-decoder", in, "byte " + std::to_string(s.at - 1));
        if (ok)
            s.got += char32_t(out.data()[0]);
    }
    Heap::on = true;
    for (auto& s: v)
    {
        u8u32_stream_convert_destroy(&s.st);
        if (s.st)
        {
            Heap::on = false;
            h::violation("stream/handle-not-null", in, "");
            Heap::on = true;
        }
    }
    Heap::on = false;
    if (Heap::live)
        h::violation("heap-balance/stream", in, std::to_string(Heap::live) + " blocks not returned");
    for (auto& s: v)
        if (s.well && s.got != s.want)
            h::violation("stream/text", h::hex(s.in), "got " + h::hex(s.got) + " want " + h::hex(s.want));
    h::count("stream groups");
}
void macros(uint32_t c, h::Rng& r)
{
    auto in = h::cphex(c);
    eq("macro/valid", in, u32_is_valid_codepoint(c) ? 1 : 0, ref::scalar(c) ? 1 : 0);
    if (c > 0x1FFFFF)
        return;
    uint32_t x = c;
    uint32_t bits = 0;
    for (int i = 0; i < 14; ++i)
    {
        auto k = r.below(uint32_t(u32_unused_bit_capacity()));
        if (r.chance(1, 2))
        {
            x = uint32_t(u32_unused_bit_on(x, k));
            bits |= 1u << k;
        }
        else
        {
            x = uint32_t(u32_unused_bit_off(x, k));
            bits &= ~(1u << k);
        }
        eq("macro/get", in, u32_unused_bit_get(x, k) ? 1 : 0, bits >> k & 1);
        eq("macro/mask", in, u32_unused_bit_mask(x), bits);
        eq("macro/cleared", in, u32_unused_bit_cleared(x), c);
    }
    h::count("bit histories");
}
} // namespace

int run_harness()
{
    ref::load();
    ref::pools();
    // (counters are made now, so that they do not show up as allocations of the code under test)
    for (auto n: { "results compared", "heap balances checked", "damaged texts" })
        h::count(n, 0);
    __sanitizer_install_malloc_and_free_hooks(Heap::alloc, Heap::release);
    h::Rng r(h::g.seed, 22, uint64_t(h::g.shard));
    eq("capacity", "", u32_unused_bit_capacity(), 11);
    measures({});
    eq("null", "", u32_gc_count(nullptr, 0), 0);
    eq("null", "", u32_gc_width(nullptr, 0, 1), 0);
    eq("null", "", u32u8_convert(nullptr, 0, nullptr, 0), 0);
    eq("null", "", u8_gc_count("", 0), 0);
    eq("null", "", u8_gc_width("", 0, 0), 0);
    h::shard_loop(ref::graphemeTests.size(), [&](uint64_t i) { measures(ref::graphemeTests[i].text); });
    h::shard_loop(ref::emojiSeqs.size(), [&](uint64_t i) { measures(ref::emojiSeqs[i].second); });
    h::shard_loop(0x1100, [&](uint64_t b) {
        for (char32_t c = char32_t(b * 256); c < (b + 1) * 256; ++c)
        {
            h::mark("character", &c, 4, 4);
            eq("macro/valid", h::cphex(c), u32_is_valid_codepoint(c) ? 1 : 0, ref::scalar(c) ? 1 : 0);
            if (ref::scalar(c))
            {
                char buf[4];
                uint32_t x = c;
                std::string w;
                ref::put8(c, w);
                auto n = u32u8_convert(&x, 1, buf, 4);
                h::count("characters converted");
                if (n != int(w.size()) || std::memcmp(buf, w.data(), w.size()))
                    h::violation("u32u8/character", h::cphex(c), std::to_string(n) + " bytes");
            }
            if (h::g.thorough || c % 8 == 0 || ref::GCB(c) != ref::gcb(0))
            {
                for (char32_t d: { 0x61, 0x301, 0x200D, 0x1F1E6, 0x903, 0x1F600, 0x1160, 0x600 })
                {
                    u32 ab { c, d }, ba { d, c };
                    eq("u32_grapheme_unbreakable", h::hex(ab), u32_grapheme_unbreakable(c, d) != 0, ref::grapheme_bounds(ab).size() == 2);
                    eq("u32_grapheme_unbreakable", h::hex(ba), u32_grapheme_unbreakable(d, c) != 0, ref::grapheme_bounds(ba).size() == 2);
                    h::count("pairs", 2);
                }
            }
        }
    });
    h::shard_loop(h::tier(60000, 2000000), [&](uint64_t) { measures(ref::gen_any_text(r, 14)); });
    h::shard_loop(h::tier(40000, 1500000), [&](uint64_t) {
        damaged(mal::gen(r));
    });
    h::shard_loop(h::tier(60000, 2000000), [&](uint64_t) {
        u32 t;
        auto bad = r.chance(1, 3);
        for (auto c: ref::gen_any_text(r, 10))
            t += bad && r.chance(1, 4) ? (r.chance(1, 2) ? 0xD800 + r.below(0x800) : char32_t(r.next())) : ref::scalar(c) ? c : U'x';
        convert(t, std::all_of(t.begin(), t.end(), ref::scalar));
    });
    h::shard_loop(h::tier(40000, 1500000), [&](uint64_t) { streams(r); });
    h::shard_loop(h::tier(40000, 1000000), [&](uint64_t) { macros(r.chance(1, 2) ? ref::any_scalar(r) : uint32_t(r.next()), r); });
    auto const long_text = [&](u32 const& s) {
        measures(s);
        convert(s, std::all_of(s.begin(), s.end(), ref::scalar));
    };
    ref::long_texts(r, long_text);
    ref::huge_texts(long_text);
    ref::far_texts(r, [&](u32 const& s) { measures(s); }, 3);
    h::sample("text", h::hex(ref::gen_any_text(r, 12)));
    return 0;
}

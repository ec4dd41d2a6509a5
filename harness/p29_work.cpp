// P29: the work done for a text grows in proportion to the text.
// Every edge of the control flow (compiler instrumentation) and every byte moved or set by the C library is counted; the counts are
// deterministic, so that no clock is needed.
#include "ops.hpp"

namespace work
{
uint64_t edges = 0, bytes = 0;
inline uint64_t cost() { return edges + bytes / 4; }
} // namespace work

extern "C"
{
    void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
    __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard(uint32_t*) { ++work::edges; }

    __attribute__((no_sanitize("coverage"), no_builtin)) void* memmove(void* d, void const* s, size_t n)
    {
        work::bytes += n;
        void* r = d;
        if (d <= s || static_cast<char*>(d) >= static_cast<char const*>(s) + n)
            asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
        else
        {
            d = static_cast<char*>(d) + n - 1;
            s = static_cast<char const*>(s) + n - 1;
            asm volatile("std; rep movsb; cld" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
        }
        return r;
    }
    __attribute__((no_sanitize("coverage"), no_builtin)) void* memcpy(void* d, void const* s, size_t n)
    {
        work::bytes += n;
        void* r = d;
        asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
        return r;
    }
    __attribute__((no_sanitize("coverage"), no_builtin)) void* memset(void* d, int c, size_t n)
    {
        work::bytes += n;
        void* r = d;
        asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
        return r;
    }
    __attribute__((no_sanitize("coverage"), no_builtin)) int memcmp(void const* a, void const* b, size_t n)
    {
        auto const *x = static_cast<unsigned char const*>(a), *y = static_cast<unsigned char const*>(b);
        for (size_t i = 0; i < n; ++i)
            if (x[i] != y[i])
            {
                work::bytes += i + 1;
                return x[i] < y[i] ? -1 : 1;
            }
        work::bytes += n;
        return 0;
    }
    __attribute__((no_sanitize("coverage"), no_builtin)) size_t strlen(char const* s)
    {
        size_t n = 0;
        while (*(s + n))
        {
            asm volatile("" : : : "memory");
            ++n;
        }
        work::bytes += n;
        return n;
    }
}

using namespace ops;
namespace
{
constexpr Normalization_Form forms[] = { Normalization_Form::NFC, Normalization_Form::NFD, Normalization_Form::NFKC, Normalization_Form::NFKD };
#define OP(name, ...) { name, [](Text const& x) { Digest d; __VA_ARGS__; return d.v; } }
Named const more[] = {
    OP("lines of 80 columns", scan_state st {}; auto rest = std::string_view(x.b); st.next = rest.data(); while (!rest.empty()) {
        auto const* before = rest.data();
        auto r = scan_text(st, rest, 80);
        auto n = size_t(r.end - before);
        if (!n || n > rest.size())
            n = 1;
        rest.remove_prefix(n);
        st = {};
        st.next = rest.data();
        d << r.count << n;
    }),
    OP("damaged lines", scan_state st {}; auto rest = std::string_view(x.damaged); st.next = rest.data(); Log log; while (!rest.empty()) {
        auto const* before = rest.data();
        auto r = scan_text(st, rest, 40, log);
        auto n = size_t(r.end - before);
        if (!n || n > rest.size())
            n = 1;
        rest.remove_prefix(n);
        st = {};
        st.next = rest.data();
        d << r.count << n;
    }),
    OP("iterators", utf8_grapheme_segmenter s(x.b); size_t n = 0; for (auto i = s.begin(), e = s.end(); i != e; i++) { auto j = i; n += (*j).size(); } d << n),
    OP("normalizers", for (auto f: forms) { normalizer n(f); for (auto c: x.t) d << n.feed(c).size(); d << n.flush().size(); }),
    OP("utf8 normalizers, bytewise", for (auto f: forms) { utf8_normalizer n(f); for (auto const& c: x.b) d << n.feed(std::string_view(&c, 1)).size(); d << n.flush().size(); }),
    OP("utf8 normalizers, whole", for (auto f: forms) { utf8_normalizer n(f); d << n.feed(x.b).size() << n.flush().size(); }),
    OP("normalize, all forms", for (auto f: forms) d << normalize(std::u32string_view(x.t), f).size() << normalize(std::string_view(x.b), f).size()),
    OP("is_normalized", for (auto f: forms) d << is_normalized(std::u32string_view(x.t), f) << is_normalized(std::string_view(x.b), f) << uint64_t(quick_check(std::u32string_view(x.t), f))),
    OP("equivalence", auto n = to_nfd(std::u32string_view(x.t)); d << is_canonically_equivalent(std::u32string_view(x.t), n) << is_compatibility_equivalent(std::u32string_view(n), std::u32string_view(x.t))),
    OP("casefold_compare", auto u = to_uppercase(std::u32string_view(x.t)); d << uint64_t(casefold_compare(std::u32string_view(x.t), u) + 2) << uint64_t(casefold_compare(std::string_view(x.b), to_utf8(u)) + 2) << casefold_equals(std::u32string_view(u), x.t)),
    OP("words", word_segmenter s(x.t); for (size_t n = 0; n <= x.t.size() && !(*s).empty(); ++n, ++s) d << (*s).size()),
    OP("clusters", grapheme_segmenter s(x.t); for (size_t n = 0; n <= x.t.size() && !(*s).empty(); ++n, ++s) d << (*s).size()),
    OP("C widths", auto const* c = reinterpret_cast<u32_char_t const*>(x.t.data()); d << uint64_t(u32_gc_width(c, x.t.size(), 1)) << uint64_t(u8_gc_width(x.b.data(), x.b.size(), 0)) << uint64_t(u8_gc_count(x.damaged.data(), x.damaged.size()))),
};
#undef OP

/// The same text at different lengths: up to three stretches, each a short unit over and over, perhaps the whole of it repeated.
struct Pattern
{
    std::vector<u32> units;
    std::string junk;
    bool interleaved = false;
    unsigned block = 0; // length of a stretch if the stretches alternate
};
Pattern pattern(h::Rng& r)
{
    Pattern p;
    auto n = 1 + r.below(3);
    auto how = r.below(5);
    for (unsigned i = 0; i < n; ++i)
    {
        u32 u;
        auto len = r.chance(1, 2) ? 1 : 1 + r.below(4);
        for (unsigned k = 0; k < len; ++k)
        {
            char32_t c = 0;
            switch (how)
            {
                case 0: c = ref::gen_grapheme(r); break;
                case 1: c = ref::gen_word(r); break;
                case 2: c = ref::gen_norm(r); break;
                case 3:
                {
                    auto const& pool = ref::P.ccc[r.below(256)];
                    c = pool.empty() ? U'\u0301' : r.pick(pool);
                    break;
                }
                default: c = ref::any_scalar(r);
            }
            if (ref::scalar(c))
                u += c;
        }
        if (u.empty())
            u = U"\u0316";
        p.units.push_back(u);
    }
    p.block = r.chance(1, 2) ? 0 : 1 + r.below(30);
    p.junk = mal::gen(r);
    if (p.junk.size() > 12)
        p.junk.resize(12);
    if (p.junk.empty())
        p.junk = "\xE0\xA0";
    return p;
}
Text grow(Pattern const& p, size_t n)
{
    Text x;
    auto stretch = p.block ? p.block : n / p.units.size() + 1;
    while (x.t.size() < n)
        for (auto const& u: p.units)
            for (size_t k = 0; k * u.size() < stretch; ++k)
                x.t += u;
    x.t.resize(n);
    x.b = ref::to8(x.t);
    x.w = ref::to16(x.t);
    while (x.damaged.size() < n)
        x.damaged += p.junk;
    return x;
}
uint64_t cost(Op op, Text const& x)
{
    work::edges = work::bytes = 0;
    auto volatile v = op(x);
    (void) v;
    return work::cost();
}
std::string describe(Pattern const& p)
{
    std::string s = p.block ? "alternating stretches of " + std::to_string(p.block) + ":" : "stretches:";
    for (auto const& u: p.units)
        s += " [" + h::hex(u) + "]";
    return s + " damaged [" + h::hex(p.junk) + "]";
}

void examine(Named const& o, Pattern const& p, Text const (&texts)[3])
{
    h::mark(o.name, describe(p));
    uint64_t c[3];
    for (int i = 0; i < 2; ++i)
        c[i] = cost(o.op, texts[i]);
    h::count("growths measured");
    h::count("edges and words counted", c[0] + c[1]);
    auto const ratio = double(c[1]) / double(c[0] + 1);
    h::g.nontrivial++;
    h::seen("growth, in hundredths", uint64_t(ratio * 100));
    // four times the text: four times the work, or a little more with sorting and with what only long texts reach
    if (ratio <= 6.0)
        return;
    c[2] = cost(o.op, texts[2]);
    auto const next = double(c[2]) / double(c[1] + 1);
    h::count("growths looked at again");
    if (next > 6.0)
        h::violation(std::string("growth/") + o.name, describe(p),
                     "work for " + std::to_string(texts[0].t.size()) + ", " + std::to_string(texts[1].t.size()) + ", " + std::to_string(texts[2].t.size()) + " code points: " + std::to_string(c[0]) + ", "
                         + std::to_string(c[1]) + ", " + std::to_string(c[2]));
}
} // namespace

int run_harness()
{
    ref::load();
    ref::pools();
    h::shard_loop(h::tier(240, 8000), [&](uint64_t i) {
        h::Rng r(h::g.seed, i, 29);
        auto p = pattern(r);
        Text const texts[3] = { grow(p, 800), grow(p, 3200), grow(p, 12800) };
        for (auto const& o: table)
            examine(o, p, texts);
        for (auto const& o: more)
            examine(o, p, texts);
        if (h::g.samples["patterns"].size() < 4)
            h::sample("patterns", describe(p));
    });
    return 0;
}

// P26: operations give back all memory they take, take no more than their text requires, and survive its exhaustion.
#include "ops.hpp"
#include <malloc.h>
#include <new>

// Every allocation of the program goes through here (the sanitizer watches the malloc() below).
namespace heap
{
bool armed = false;      // count, and fail when it is due
uint64_t allocations = 0;
uint64_t failAt = 0;     // the how-manieth allocation fails (0: none)
int64_t live = 0, peak = 0, blocks = 0;
uint64_t failures = 0;

void* take(size_t n, size_t align)
{
    if (armed && ++allocations == failAt)
    {
        ++failures;
        return nullptr;
    }
    void* p = nullptr;
    if (align <= alignof(std::max_align_t))
        p = std::malloc(n ? n : 1);
    else if (posix_memalign(&p, align, n))
        p = nullptr;
    if (p && armed)
    {
        live += int64_t(malloc_usable_size(p));
        ++blocks;
        peak = std::max(peak, live);
    }
    return p;
}
void give(void* p)
{
    if (p && armed)
    {
        live -= int64_t(malloc_usable_size(p));
        --blocks;
    }
    std::free(p);
}
void* takeOrThrow(size_t n, size_t a)
{
    if (void* p = take(n, a))
        return p;
    throw std::bad_alloc();
}
struct Watch // what happens to the heap from here on
{
    explicit Watch(uint64_t failing = 0)
    {
        allocations = failures = 0;
        live = peak = blocks = 0;
        failAt = failing;
        armed = true;
    }
    void stop() { armed = false; }
    ~Watch() { armed = false; }
};
} // namespace heap

void* operator new(size_t n) { return heap::takeOrThrow(n, 1); }
void* operator new[](size_t n) { return heap::takeOrThrow(n, 1); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return heap::take(n, 1); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return heap::take(n, 1); }
void* operator new(size_t n, std::align_val_t a) { return heap::takeOrThrow(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return heap::takeOrThrow(n, size_t(a)); }
void operator delete(void* p) noexcept { heap::give(p); }
void operator delete[](void* p) noexcept { heap::give(p); }
void operator delete(void* p, size_t) noexcept { heap::give(p); }
void operator delete[](void* p, size_t) noexcept { heap::give(p); }
void operator delete(void* p, std::align_val_t) noexcept { heap::give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { heap::give(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { heap::give(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { heap::give(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { heap::give(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { heap::give(p); }

using namespace ops;
namespace
{
constexpr Normalization_Form forms[] = { Normalization_Form::NFC, Normalization_Form::NFD, Normalization_Form::NFKC, Normalization_Form::NFKD };

// Operations that may throw (everything declared noexcept must not run out of memory: it would end the program, as declared).
#define OP(name, ...) { name, [](Text const& x) { Digest d; __VA_ARGS__; return d.v; } }
Named const throwing[] = {
    OP("convert_to<char32_t>(utf8)", d.str(convert_to<char32_t>(std::string_view(x.b)))),
    OP("convert_to<char16_t>(utf8)", d.str(convert_to<char16_t>(std::string_view(x.b)))),
    OP("convert_to<char>(utf32)", d.str(convert_to<char>(std::u32string_view(x.t)))),
    OP("convert_to<char>(utf16)", d.str(convert_to<char>(std::u16string_view(x.w)))),
    OP("convert_to<char32_t>(utf16)", d.str(convert_to<char32_t>(std::u16string_view(x.w)))),
    OP("convert_to<char16_t>(utf32)", d.str(convert_to<char16_t>(std::u32string_view(x.t)))),
    OP("convert_to<char32_t>(damaged)", d.str(convert_to<char32_t>(std::string_view(x.damaged)))),
    OP("convert_to<char16_t>(damaged)", d.str(convert_to<char16_t>(std::string_view(x.damaged)))),
    OP("to_utf8", d.str(to_utf8(x.t))),
    OP("from_utf8", d.str(from_utf8(x.damaged))),
    OP("normalize utf32", for (auto f: forms) d.str(normalize(std::u32string_view(x.t), f))),
    OP("normalize utf8", for (auto f: forms) d.str(normalize(std::string_view(x.b), f))),
    OP("is_normalized", for (auto f: forms) d << is_normalized(std::u32string_view(x.t), f) << is_normalized(std::string_view(x.b), f)),
    OP("quick_check", for (auto f: forms) d << uint64_t(quick_check(std::u32string_view(x.t), f)) << uint64_t(quick_check(std::string_view(x.b), f))),
    OP("equivalence", d << is_canonically_equivalent(std::u32string_view(x.t), std::u32string_view(x.t)) << is_compatibility_equivalent(std::string_view(x.b), std::string_view(x.b))),
    OP("decomposition", for (auto c: x.t) { for (auto y: canonical_decomposition(c)) d << y; for (auto y: compatibility_decomposition(c)) d << y; }),
    OP("to_uppercase", d.str(to_uppercase(std::u32string_view(x.t))).str(to_uppercase(std::string_view(x.b)))),
    OP("to_lowercase", d.str(to_lowercase(std::u32string_view(x.t))).str(to_lowercase(std::string_view(x.b)))),
    OP("to_titlecase", d.str(to_titlecase(std::u32string_view(x.t))).str(to_titlecase(std::string_view(x.b)))),
    OP("casefold", d.str(casefold(std::u32string_view(x.t))).str(casefold(std::string_view(x.b)))),
    OP("casefold_compare", d << uint64_t(casefold_compare(std::string_view(x.b), std::string_view(x.damaged)) + 2) << uint64_t(casefold_compare(std::u32string_view(x.t), std::u32string_view(x.t)) + 2)),
    OP("grapheme_segmenter", grapheme_segmenter s(x.t); for (size_t n = 0; n <= x.t.size() && !(*s).empty(); ++n, ++s) d << (*s).size()),
    OP("word_segmenter", word_segmenter s(x.t); for (size_t n = 0; n <= x.t.size() && !(*s).empty(); ++n, ++s) d << (*s).size()),
    OP("run_segmenter", run_segmenter s(x.t); run_segmenter::range rg {}; for (size_t i = 0; i <= x.t.size() && s.consume(out(rg)); ++i) d << rg.start << rg.end),
    OP("normalizer", for (auto f: forms) { normalizer n(f); for (auto c: x.t) d.str(n.feed(c)); normalizer m(n); d.str(n.flush()).str(m.flush()); }),
    OP("utf8_normalizer", for (auto f: forms) { utf8_normalizer n(f); for (size_t i = 0; i < x.damaged.size(); i += 5) d.str(n.feed(std::string_view(x.damaged).substr(i, 5))); d.str(n.flush()); }),
    OP("u8_gc", d << uint64_t(u8_gc_count(x.b.data(), x.b.size())) << uint64_t(u8_gc_width(x.b.data(), x.b.size(), 1))),
    OP("u8u32_stream_convert", auto st = u8u32_stream_convert_create(); if (!st) throw std::bad_alloc(); for (auto b: x.b) { u32_char_t o = 0; d << uint64_t(u8u32_stream_convert_run(st, b, &o)) << uint64_t(o); } u8u32_stream_convert_destroy(&st)),
};
#undef OP

Text text(h::Rng& r, unsigned len)
{
    Text x;
    x.t = ref::gen_any_text(r, len);
    std::erase_if(x.t, [](char32_t c) { return !ref::scalar(c); });
    x.b = ref::to8(x.t);
    x.w = ref::to16(x.t);
    x.damaged = mal::gen(r);
    return x;
}

uint64_t run(Op op, Text const& x, uint64_t failing, bool& threw)
{
    threw = false;
    heap::Watch w(failing);
    uint64_t v = 0;
    try
    {
        v = op(x);
    }
    catch (std::bad_alloc const&)
    {
        threw = true;
    }
    w.stop();
    return v;
}

bool balanced(char const* name, Text const& x, char const* when)
{
    if (heap::blocks == 0 && heap::live == 0)
        return true;
    h::violation(std::string("balance/") + name, h::hex(x.t), std::string(when) + ": " + std::to_string(heap::blocks) + " blocks with " + std::to_string(heap::live) + " bytes left");
    return false;
}

void proportion(char const* name, Text const& x)
{
    // Characters expand to at most 18 by decomposition; copies, growth by doubling and the UTF-8 and UTF-32 side by side come on top.
    auto const size = int64_t(x.t.size() + x.b.size() + x.w.size() + x.damaged.size());
    auto const bound = 4096 + 600 * size;
    h::count("peaks compared");
    if (heap::peak > bound)
        h::violation(std::string("peak/") + name, h::hex(x.t), std::to_string(heap::peak) + " bytes at once for a text of " + std::to_string(size) + " units");
}

void exercise(Named const& o, Text const& x, bool failing, h::Rng& r)
{
    bool threw = false;
    h::mark(o.name, x.t);
    auto const first = run(o.op, x, 0, threw);
    auto const n = heap::allocations;
    balanced(o.name, x, "after the operation");
    proportion(o.name, x);
    h::count("operations run");
    h::count("allocations watched", n);
    if (threw)
        h::violation(std::string("throws/") + o.name, h::hex(x.t), "ran out of memory with plenty of it");
    auto again = run(o.op, x, 0, threw);
    balanced(o.name, x, "after the second time");
    if (again != first)
        h::violation(std::string("again/") + o.name, h::hex(x.t), "another result the second time");
    if (heap::allocations > n)
        h::violation(std::string("again/") + o.name, h::hex(x.t), "allocates more the second time");
    if (!failing || !n)
        return;
    h::g.nontrivial++;
    auto const tries = n <= 24 ? n : uint64_t(24);
    for (uint64_t k = 1; k <= tries; ++k)
    {
        auto const at = n <= 24 ? k : 1 + r.below(uint32_t(n));
        auto v = run(o.op, x, at, threw);
        h::count("exhaustions");
        auto const when = "allocation " + std::to_string(at) + " of " + std::to_string(n) + " failing";
        if (!threw && heap::failures && v != first)
            h::violation(std::string("exhaustion/") + o.name, h::hex(x.t), when + ": no exception, and another result");
        balanced(o.name, x, when.c_str());
        if (k == tries || r.chance(1, 4))
        {
            v = run(o.op, x, 0, threw);
            h::count("retries");
            if (threw || v != first)
                h::violation(std::string("retry/") + o.name, h::hex(x.t), "another result after " + when);
        }
    }
}

/// A normalizer that runs out of memory in the middle of its stream can be reset and used for another text.
template <typename N, typename Feed, typename Str>
void survivor(char const* name, Normalization_Form f, Str const& first, Str const& second, Feed feed, Str const& want, h::Rng& r)
{
    heap::Watch w(1 + r.below(3));
    N n(f);
    bool threw = false;
    try
    {
        feed(n, first, [](auto) {});
    }
    catch (std::bad_alloc const&)
    {
        threw = true;
    }
    heap::armed = false;
    n.reset();
    Str got;
    feed(n, second, [&](auto v) { got += v; });
    got += n.flush();
    h::count(threw ? "normalizers reset after an exhaustion" : "normalizers reset after none");
    if (got != want)
        h::violation(std::string("survivor/") + name, h::hex(second), "after an exhaustion and reset: " + h::hex(got));
}
} // namespace

int run_harness()
{
    ref::load();
    ref::pools();
    for (auto n: { "peaks compared", "operations run", "allocations watched", "exhaustions", "retries" })
        h::count(n, 0);
    {
        Text warm;
        warm.t = U"a\u0301\u1100\u1161 \U0001F600";
        warm.b = warm.damaged = ref::to8(warm.t);
        warm.w = ref::to16(warm.t);
        for (auto const& o: table) // anything the program sets up once
            o.op(warm);
        for (auto const& o: throwing)
            o.op(warm);
    }
    h::shard_loop(h::tier(1600, 40000), [&](uint64_t i) {
        h::Rng r(h::g.seed, i, 26);
        auto x = text(r, r.chance(1, 6) ? 200 + r.below(600) : 1 + r.below(40));
        for (auto const& o: table)
            exercise(o, x, false, r);
        for (auto const& o: throwing)
            exercise(o, x, true, r);
        if (i == 0)
            h::sample("texts", h::hex(x.t));
    });
    h::shard_loop(h::tier(40000, 1000000), [&](uint64_t i) {
        h::Rng r(h::g.seed, i, 27);
        auto a = text(r, r.chance(1, 4) ? 100 + r.below(300) : 1 + r.below(60)), b = text(r, 1 + r.below(30));
        auto f = forms[r.below(4)];
        h::mark("survivor", a.t);
        survivor<normalizer, void (*)(normalizer&, u32 const&, std::function<void(std::u32string_view)> const&)>(
            "normalizer", f, a.t, b.t,
            [](normalizer& n, u32 const& s, std::function<void(std::u32string_view)> const& take) {
                for (auto c: s)
                    take(n.feed(c));
            },
            normalize(std::u32string_view(b.t), f), r);
        survivor<utf8_normalizer, void (*)(utf8_normalizer&, std::string const&, std::function<void(std::string_view)> const&)>(
            "utf8_normalizer", f, a.damaged, b.b,
            [](utf8_normalizer& n, std::string const& s, std::function<void(std::string_view)> const& take) {
                for (size_t p = 0; p < s.size(); p += 7)
                    take(n.feed(std::string_view(s).substr(p, 7)));
            },
            normalize(std::string_view(b.b), f), r);
    });
    // A stream holds its unfinished segment, not its text.
    h::shard_loop(h::tier(64, 640), [&](uint64_t i) {
        h::Rng r(h::g.seed, i, 28);
        u32 unit;
        size_t longest = 0, run = 0;
        for (unsigned k = 0, n = 1 + r.below(60); k < n; ++k)
        {
            auto c = ref::gen_any_text(r, 1);
            if (c.empty() || !ref::scalar(c[0]))
                continue;
            unit += c[0];
        }
        unit += U' ';
        for (auto c: unit)
        {
            run = ref::CCC(c) == 0 && c < 0x300 ? 1 : run + 1;
            longest = std::max(longest, run);
        }
        auto f = forms[r.below(4)];
        auto bytes = ref::to8(unit);
        h::mark("held", unit);
        auto const reps = size_t(40000) / unit.size();
        auto bound = int64_t(8192 + longest * 600);
        {
            heap::Watch w;
            normalizer n(f);
            for (size_t k = 0; k < reps; ++k)
                for (auto c: unit)
                    (void) n.feed(c);
            w.stop();
            h::count("streams held");
            h::count("code points streamed", reps * unit.size());
            if (heap::peak > bound)
                h::violation("held/normalizer", h::hex(unit), std::to_string(heap::peak) + " bytes at once after " + std::to_string(reps) + " repetitions");
        }
        {
            heap::Watch w;
            utf8_normalizer n(f);
            for (size_t k = 0; k < reps; ++k)
                (void) n.feed(bytes);
            w.stop();
            if (heap::peak > bound + int64_t(bytes.size() * 200))
                h::violation("held/utf8_normalizer", h::hex(unit), std::to_string(heap::peak) + " bytes at once after " + std::to_string(reps) + " repetitions");
        }
    });
    return 0;
}

// P11: quick check never contradicts normalization; is_normalized and the equivalence tests decide exactly what they say.
#include "ref.hpp"
#include <libunicode/normalization.h>

using namespace unicode;
using ref::Form;
using ref::u32;
namespace
{
constexpr Normalization_Form NF[] = { Normalization_Form::NFC, Normalization_Form::NFD, Normalization_Form::NFKC, Normalization_Form::NFKD };
constexpr Form RF[] = { Form::C, Form::D, Form::KC, Form::KD };
char const* const Name[] = { "NFC", "NFD", "NFKC", "NFKD" };

void one(u32 const& s)
{
    h::mark("quick check", s);
    h::exact<char32_t> e(s);
    bool const wf = std::all_of(s.begin(), s.end(), ref::scalar);
    h::exact<char> b(wf ? ref::to8(s) : std::string());
    for (int f = 0; f < 4; ++f)
    {
        auto bad = [&](char const* k, std::string const& d) { h::violation(std::string(Name[f]) + "/" + k, h::hex(s), d); };
        bool const is = ref::normalize(s, RF[f]) == s;
        auto const q = quick_check(e.view(), NF[f]);
        if (q == Quick_Check_Result::Yes && !is)
            bad("quick_check says Yes", "but the text is not normalized");
        if (q == Quick_Check_Result::No && is)
            bad("quick_check says No", "but the text is normalized");
        if (q == Quick_Check_Result::Maybe && (f == 1 || f == 3))
            bad("quick_check says Maybe", "for a decomposed form");
        if (is_normalized(e.view(), NF[f]) != is)
            bad("is_normalized", is ? "false, want true" : "true, want false");
        auto const conv = f == 0 ? is_nfc(e.view()) : f == 1 ? is_nfd(e.view()) : f == 2 ? is_nfkc(e.view()) : is_nfkd(e.view());
        if (conv != is)
            bad("convenience", is ? "false, want true" : "true, want false");
        h::count(q == Quick_Check_Result::Yes ? "answers Yes" : q == Quick_Check_Result::No ? "answers No" : is ? "answers Maybe, normalized" : "answers Maybe, not normalized");
        if (wf)
        {
            auto const c8 = f == 0 ? is_nfc(b.view()) : f == 1 ? is_nfd(b.view()) : f == 2 ? is_nfkc(b.view()) : is_nfkd(b.view());
            if (quick_check(b.view(), NF[f]) != q || is_normalized(b.view(), NF[f]) != is || c8 != is)
                bad("utf8", "differs from UTF-32");
        }
        if (!is || q == Quick_Check_Result::Maybe)
        {
            h::g.nontrivial++;
            h::seen("distinct texts in need of a decision", h::hash_str(s));
        }
    }
}

void equivalent(u32 const& x, u32 const& y)
{
    auto const both = x + char32_t(0x2FFFF) + y;
    h::mark("equivalence", both);
    h::exact<char32_t> a(x), b(y);
    bool const c = ref::normalize(x, Form::D) == ref::normalize(y, Form::D);
    bool const k = ref::normalize(x, Form::KD) == ref::normalize(y, Form::KD);
    auto in = h::hex(x) + " | " + h::hex(y);
    h::count(c ? "pairs, canonically equivalent" : k ? "pairs, compatibility equivalent only" : "pairs, not equivalent");
    if (is_canonically_equivalent(a.view(), b.view()) != c || is_canonically_equivalent(b.view(), a.view()) != c)
        h::violation("is_canonically_equivalent", in, c ? "want true" : "want false");
    if (is_compatibility_equivalent(a.view(), b.view()) != k || is_compatibility_equivalent(b.view(), a.view()) != k)
        h::violation("is_compatibility_equivalent", in, k ? "want true" : "want false");
    if (std::all_of(x.begin(), x.end(), ref::scalar) && std::all_of(y.begin(), y.end(), ref::scalar))
    {
        h::exact<char> a8(ref::to8(x)), b8(ref::to8(y));
        if (is_canonically_equivalent(a8.view(), b8.view()) != c)
            h::violation("is_canonically_equivalent/utf8", in, c ? "want true" : "want false");
        if (is_compatibility_equivalent(a8.view(), b8.view()) != k)
            h::violation("is_compatibility_equivalent/utf8", in, k ? "want true" : "want false");
    }
}

/// A text equivalent (or nearly so) to s: characters decomposed or composed here and there, marks swapped.
u32 vary(h::Rng& r, u32 const& s)
{
    u32 o;
    for (auto c: s)
    {
        auto it = ref::decomp.find(c);
        if (r.chance(1, 2) && (it != ref::decomp.end() || ref::hangul_s(c)))
        {
            if (it != ref::decomp.end() && r.chance(1, 2))
                o += it->second.to;
            else
                ref::decompose_full(c, r.chance(1, 2), o);
        }
        else
            o += c;
    }
    for (uint32_t n = r.below(4); n-- > 0 && o.size() > 1;)
    {
        auto i = r.below(uint32_t(o.size() - 1));
        if (ref::CCC(o[i]) && ref::CCC(o[i + 1]))
            std::swap(o[i], o[i + 1]);
        else if (auto p = ref::primary_composite(o[i], o[i + 1]); p && r.chance(1, 2))
        {
            o[i] = p;
            o.erase(i + 1, 1);
        }
        else if (r.chance(1, 8))
            o[i] = ref::gen_norm(r);
    }
    return o;
}
} // namespace

int run_harness()
{
    ref::load();
    ref::pools();
    h::Rng r(h::g.seed, 11, uint64_t(h::g.shard));
    one({});
    equivalent({}, {});
    equivalent({}, U"a");
    h::shard_loop(ref::normTests.size(), [&](uint64_t i) {
        for (int c = 0; c < 5; ++c)
        {
            one(ref::normTests[i].c[c]);
            equivalent(ref::normTests[i].c[0], ref::normTests[i].c[c]);
        }
    });
    h::shard_loop(0x1100, [&](uint64_t b) {
        for (char32_t c = char32_t(b * 256); c < (b + 1) * 256; ++c)
        {
            bool active = ref::A.qc[c] || ref::A.ccc[c] || ref::decomp.count(c) || (ref::hangul_s(c) && (h::g.thorough || c % 7 == 0));
            if (!active && !(h::g.thorough || c % 32 == 0))
                continue;
            one({ c });
            one({ U'a', c });
            one({ c, 0x301 });
            one({ 0x301, c });
            one({ 0x1100, c });
            one({ U'e', 0x323, c, 0x302 });
            h::count("characters in context");
        }
    });
    std::vector<std::pair<char32_t, char32_t>> comps;
    for (auto& [k, c]: ref::comp)
        comps.push_back(k);
    h::shard_loop(comps.size(), [&](uint64_t i) {
        auto [a, b] = comps[i];
        auto m = ref::from(r, r.pick(ref::P.ccc));
        for (auto const& s: { u32 { a, b }, u32 { a, m, b }, u32 { a, b, m }, u32 { U'x', b }, u32 { a, U'x', b } })
            one(s);
        h::count("composition pairs");
    });
    // every pair of combining classes, in and out of order
    auto const nccc = ref::P.ccc.size();
    h::shard_loop(nccc * nccc, [&](uint64_t i) {
        auto x = ref::from(r, ref::P.ccc[i % nccc]), y = ref::from(r, ref::P.ccc[i / nccc]);
        one({ x, y });
        one({ U'a', x, y });
        one({ U'a', x, U'a', y });
        equivalent({ U'a', x, y }, { U'a', y, x });
        equivalent({ U'a', x, U'a', y }, { U'a', y, U'a', x });
        h::count("pairs of combining classes");
    });
    h::shard_loop(h::tier(60000, 1500000), [&](uint64_t) { one(ref::gen_string(r, ref::gen_norm, 8)); });
    h::shard_loop(h::tier(60000, 1500000), [&](uint64_t) {
        auto s = ref::normalize(ref::gen_string(r, ref::gen_norm, 8), r.pick(RF));
        one(s);
        auto v = vary(r, s);
        one(v);
        equivalent(s, v);
    });
    h::shard_loop(h::tier(20000, 500000), [&](uint64_t) { equivalent(ref::gen_any_text(r, 6), ref::gen_any_text(r, 6)); });
    auto const long_text = [&](u32 const& s) { one(s); };
    ref::long_texts(r, long_text);
    ref::huge_texts(long_text);
    ref::far_texts(r, long_text);
    h::sample("random text", h::hex(ref::gen_string(r, ref::gen_norm, 8)));
    return 0;
}

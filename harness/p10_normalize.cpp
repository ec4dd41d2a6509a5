// P10: normalization is UAX #15's, for every form, and so are the per-character properties it rests on.
#include "ref.hpp"
#include <libunicode/normalization.h>

using namespace unicode;
using ref::Form;
using ref::u32;
namespace
{
constexpr Normalization_Form NF[] = { Normalization_Form::NFC, Normalization_Form::NFD, Normalization_Form::NFKC, Normalization_Form::NFKD };
constexpr Form RF[] = { Form::C, Form::D, Form::KC, Form::KD };
char const* const Name[] = { "NFC", "NFD", "NFKC", "NFKD" };

u32 call(u32 const& s, int f)
{
    h::exact<char32_t> e(s);
    return normalize(e.view(), NF[f]);
}
void one(u32 const& s, bool laws = true)
{
    h::mark("normalize", s);
    h::exact<char32_t> e(s);
    std::string const bytes = ref::to8(s);
    bool const wf = std::all_of(s.begin(), s.end(), ref::scalar);
    h::exact<char> b(bytes);
    u32 out[4];
    for (int f = 0; f < 4; ++f)
    {
        auto const want = ref::normalize(s, RF[f]);
        out[f] = normalize(e.view(), NF[f]);
        h::count("normalizations compared");
        if (out[f] != want)
            h::violation(std::string(Name[f]), h::hex(s), "got " + h::hex(out[f]) + " want " + h::hex(want));
        auto const conv = f == 0 ? to_nfc(e.view()) : f == 1 ? to_nfd(e.view()) : f == 2 ? to_nfkc(e.view()) : to_nfkd(e.view());
        if (conv != want)
            h::violation(std::string(Name[f]) + "/convenience", h::hex(s), "got " + h::hex(conv));
        if (wf)
        {
            auto const w8 = ref::to8(want);
            auto const g8 = normalize(b.view(), NF[f]);
            auto const c8 = f == 0 ? to_nfc(b.view()) : f == 1 ? to_nfd(b.view()) : f == 2 ? to_nfkc(b.view()) : to_nfkd(b.view());
            if (g8 != w8 || c8 != w8)
                h::violation(std::string(Name[f]) + "/utf8", h::hex(s), "got " + h::hex(g8) + " / " + h::hex(c8) + " want " + h::hex(w8));
        }
        if (want != s)
        {
            h::g.nontrivial++;
            h::seen("distinct changed texts", h::hash_str(s));
        }
    }
    if (!laws)
        return;
    // Laws between the forms, on the outputs of the library alone.
    for (int f = 0; f < 4; ++f)
        if (call(out[f], f) != out[f])
            h::violation("idempotence", h::hex(s), Name[f]);
    if (call(out[0], 1) != out[1] || call(out[1], 0) != out[0] || call(out[0], 3) != out[3] || call(out[1], 2) != out[2]
        || call(out[2], 3) != out[3] || call(out[3], 2) != out[2] || call(out[2], 1) != out[3] || call(out[3], 0) != out[2])
        h::violation("form composition laws", h::hex(s), "");
}

void properties(char32_t c)
{
    h::mark("properties", &c, 4, 4);
    auto bad = [&](char const* k, std::string const& d) { h::violation(k, h::cphex(c), d); };
    bool const in = ref::ok(c);
    uint8_t const qc = in ? ref::A.qc[c] : 0;
    auto it = ref::decomp.find(c);
    if (canonical_combining_class(c) != (in ? ref::A.ccc[c] : 0))
        bad("ccc", std::to_string(canonical_combining_class(c)));
    u32 canon, compat;
    Decomposition_Type dt = decomposition_type(c);
    bool canonical = false;
    if (ref::hangul_s(c))
    {
        // documented to yield the jamos
        ref::decompose_full(c, false, canon);
        compat = canon;
        canonical = true;
    }
    else if (it != ref::decomp.end())
    {
        compat = it->second.to;
        canonical = it->second.type == int(refmap::dt_id::Canonical_);
        if (canonical)
            canon = compat;
    }
    auto eq = [](std::vector<char32_t> const& v, u32 const& w) { return u32(v.begin(), v.end()) == w; };
    auto full = [&](std::vector<char32_t> const& v, bool k) { // either the raw mapping or the full one is a correct decomposition
        u32 w;
        ref::decompose_full(c, k, w);
        return u32(v.begin(), v.end()) == w;
    };
    if (auto v = canonical_decomposition(c); !eq(v, canon) && !(canonical && full(v, false)))
        bad("canonical_decomposition", h::hex(u32(v.begin(), v.end())) + " want " + h::hex(canon));
    if (auto v = compatibility_decomposition(c); !eq(v, compat) && !(!compat.empty() && full(v, true)))
        bad("compatibility_decomposition", h::hex(u32(v.begin(), v.end())) + " want " + h::hex(compat));
    bool const none = compat.empty();
    if (none != (dt == Decomposition_Type::None) || canonical != (dt == Decomposition_Type::Canonical))
        bad("decomposition_type", std::to_string(int(dt)));
    if (!none && !canonical && dt != refmap::dt_lib[it->second.type])
        bad("decomposition_type", std::to_string(int(dt)) + ", reference type " + std::to_string(it->second.type));
    if (is_full_composition_exclusion(c) != bool(qc & 64))
        bad("is_full_composition_exclusion", "want " + std::to_string(bool(qc & 64)));
    // Composition_Exclusion proper: excluded although the decomposition is a pair that starts with a starter.
    bool const proper = (qc & 64) && canonical && canon.size() == 2 && !ref::CCC(c) && !ref::CCC(canon[0]);
    if (is_composition_exclusion(c) ? !(qc & 64) : proper)
        bad("is_composition_exclusion", "want " + std::to_string(proper));
    auto const nfc = nfc_quick_check(c);
    auto const nfkc = nfkc_quick_check(c);
    auto code = [](auto x) { using T = decltype(x); return x == T::No ? 1 : x == T::Maybe ? 2 : 0; };
    h::count("characters' properties compared");
    if (code(nfc) != ((qc & 1) ? 1 : (qc & 2) ? 2 : 0))
        bad("nfc_quick_check", std::to_string(code(nfc)));
    if (code(nfkc) != ((qc & 4) ? 1 : (qc & 8) ? 2 : 0))
        bad("nfkc_quick_check", std::to_string(code(nfkc)));
    if (nfd_quick_check(c) == bool(qc & 16))
        bad("nfd_quick_check", "");
    if (nfkd_quick_check(c) == bool(qc & 32))
        bad("nfkd_quick_check", "");
    bool const l = c >= 0x1100 && c <= 0x1112, v = c >= 0x1161 && c <= 0x1175, t = c >= 0x11A8 && c <= 0x11C2;
    if (is_hangul_l_jamo(c) != l || is_hangul_v_jamo(c) != v || is_hangul_t_jamo(c) != t || is_hangul_syllable(c) != ref::hangul_s(c))
        bad("hangul classes", "");
    char32_t o[4] = { 7, 7, 7, 7 };
    auto n = hangul_decompose(c, o);
    u32 want;
    if (ref::hangul_s(c))
        ref::decompose_full(c, false, want);
    if (u32(o, n) != want || (n < 4 && o[3] != 7) || (n < 3 && n && o[2] != 7))
        bad("hangul_decompose", h::hex(u32(o, n)));
    if (n && hangul_compose(o[0], o[1], n == 3 ? o[2] : 0) != c)
        bad("hangul_compose", "does not return the syllable");
    if (qc || !canon.empty())
        h::seen("characters with normalization data", c);
}
} // namespace

int run_harness()
{
    ref::load();
    ref::pools();
    h::Rng r(h::g.seed, 10, uint64_t(h::g.shard));
    one({});
    h::shard_loop(ref::normTests.size(), [&](uint64_t i) {
        auto const& t = ref::normTests[i];
        h::count("conformance lines");
        // NFC: c2 == toNFC(c1..c3), c4 == toNFC(c4,c5) and so on
        static int const wantCol[4][5] = { { 1, 1, 1, 3, 3 }, { 2, 2, 2, 4, 4 }, { 3, 3, 3, 3, 3 }, { 4, 4, 4, 4, 4 } };
        for (int f = 0; f < 4; ++f)
            for (int c = 0; c < 5; ++c)
                if (auto g = call(t.c[c], f); g != t.c[wantCol[f][c]])
                    h::violation("conformance", h::hex(t.c[c]), std::string(Name[f]) + " got " + h::hex(g) + " want " + h::hex(t.c[wantCol[f][c]]));
        one(t.c[0]);
    });
    h::shard_loop(0x1100, [&](uint64_t b) {
        for (char32_t c = char32_t(b * 256); c < (b + 1) * 256; ++c)
        {
            properties(c);
            bool active = ref::A.qc[c] || ref::A.ccc[c] || ref::decomp.count(c) || (ref::hangul_s(c) && (h::g.thorough || c % 7 == 0));
            if (!active && !(h::g.thorough || c % 64 == 0))
            {
                // inert characters map to themselves
                auto d = call({ c }, 3), k = call({ c }, 2);
                if (d != ref::normalize(u32(1, c), Form::KD) || k != ref::normalize(u32(1, c), Form::KC))
                    h::violation("single", h::cphex(c), h::hex(d) + " / " + h::hex(k));
            }
            else
            {
                one({ c }, false);
                one({ c, 0x301 }, false);
                one({ U'a', c }, false);
                one({ U'a', 0x323, c, 0x30A, c }, false);
                h::count("active characters in context");
            }
        }
    });
    for (int i = 0; i < 4000; ++i)
        properties(char32_t(0x110000 + r.next() % 0xFFEF0000u));
    // Hangul: every L x V x T in the neighbourhood of the composing ranges
    h::shard_loop(0x1116 - 0x10FE, [&](uint64_t i) {
        char32_t L = 0x10FE + char32_t(i);
        for (char32_t V = 0x115E; V <= 0x1178; ++V)
        {
            one({ L, V }, false);
            for (char32_t T = 0x11A5; T <= 0x11C5; T += (h::g.thorough ? 1 : 1 + (T > 0x11AA && T < 0x11C0) * 5))
            {
                one({ L, V, T }, false);
                char32_t want = 0;
                bool lv = L >= 0x1100 && L <= 0x1112 && V >= 0x1161 && V <= 0x1175;
                if (lv && T >= 0x11A8 && T <= 0x11C2)
                    want = 0xAC00 + ((L - 0x1100) * 21 + V - 0x1161) * 28 + T - 0x11A7;
                if (hangul_compose(L, V, T) != want)
                    h::violation("hangul_compose", h::hex(u32 { L, V, T }), h::cphex(hangul_compose(L, V, T)));
                h::count("jamo triples");
            }
        }
    });
    h::shard_loop(11172, [&](uint64_t i) {
        char32_t S = 0xAC00 + char32_t(i);
        one({ S, char32_t(0x11A6 + r.below(0x20)) }, false);
    });
    // every primary composite, its parts apart, in sequence and blocked
    std::vector<std::tuple<char32_t, char32_t, char32_t>> comps;
    for (auto& [k, c]: ref::comp)
        comps.emplace_back(k.first, k.second, c);
    h::shard_loop(comps.size(), [&](uint64_t i) {
        auto [a, b, c] = comps[i];
        auto m = ref::from(r, r.pick(ref::P.ccc));
        one({ a, b }, false);
        one({ a, m, b }, false);
        one({ a, b, m }, false);
        one({ m, a, b }, false);
        one({ a, m, b, b }, false);
        one({ c, m, b, a }, false);
        h::count("composition pairs");
    });
    h::shard_loop(h::tier(80000, 2000000), [&](uint64_t) { one(ref::gen_string(r, ref::gen_norm, 10)); });
    h::shard_loop(h::tier(20000, 500000), [&](uint64_t) { one(ref::gen_any_text(r, 16)); });
    h::shard_loop(h::tier(3000, 60000), [&](uint64_t) { // long runs of marks on few starters
        u32 s;
        for (uint32_t n = r.below(120); n-- > 0;)
            s += r.chance(1, 15) ? ref::gen_norm(r) : ref::from(r, r.pick(ref::P.ccc));
        one(s);
    });
    auto const long_text = [&](u32 const& s) { one(s); };
    ref::long_texts(r, long_text);
    ref::huge_texts(long_text);
    ref::far_texts(r, long_text);
    h::sample("random text", h::hex(ref::gen_string(r, ref::gen_norm, 10)));
    return 0;
}

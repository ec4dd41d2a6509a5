// P13: case mapping and folding are those of the UCD, per character and over texts.
#include "ref.hpp"
#include <libunicode/case_mapping.h>

using namespace unicode;
using ref::u32;
namespace
{
enum Op
{
    UP,
    LOW,
    TITLE,
    FOLD
};
char const* const Name[] = { "upper", "lower", "title", "fold" };

u32 full(Op o, char32_t c)
{
    auto const& m = o == UP ? ref::upperF : o == LOW ? ref::lowerF : o == TITLE ? ref::titleF : ref::foldF;
    if (auto it = m.find(c); it != m.end())
        return it->second;
    if (!ref::ok(c) || o == FOLD)
        return u32(1, c);
    return u32(1, o == UP ? ref::A.upper[c] : o == LOW ? ref::A.lower[c] : ref::A.title[c]);
}
bool letter(char32_t c) { auto g = ref::GC(c); return ref::ok(c) && (g == ref::gc::Uppercase_Letter_ || g == ref::gc::Lowercase_Letter_ || g == ref::gc::Titlecase_Letter_); }
bool cased(char32_t c) { return ref::ok(c) && (ref::A.core[c] >> int(refmap::core_id::Cased_) & 1); }
bool ignorable(char32_t c) { return ref::ok(c) && (ref::A.core[c] >> int(refmap::core_id::Case_Ignorable_) & 1); }

u32 map(Op o, u32 const& s)
{
    u32 r;
    for (auto c: s)
        r += full(o, c);
    return r;
}
u32 title(u32 const& s, bool derived)
{
    u32 r;
    auto b = ref::word_bounds(s);
    for (size_t w = 0; w + 1 < b.size(); ++w)
    {
        bool first = true;
        for (size_t i = b[w]; i < b[w + 1]; ++i)
        {
            if (!(derived ? cased(s[i]) : letter(s[i])))
                r += s[i];
            else
            {
                r += full(first ? TITLE : LOW, s[i]);
                first = false;
            }
        }
    }
    return r;
}
/// Equal, except that a sigma may be lower-cased to its final form where Final_Sigma holds (a condition the library need not apply).
bool same(u32 const& got, u32 const& want)
{
    if (got.size() != want.size())
        return false;
    for (size_t i = 0; i < got.size(); ++i)
        if (got[i] != want[i])
        {
            if (!(got[i] == 0x3C2 && want[i] == 0x3C3))
                return false;
            size_t a = i, z = i + 1;
            while (a > 0 && ignorable(want[a - 1]))
                --a;
            while (z < want.size() && ignorable(want[z]))
                ++z;
            if (a == 0 || !cased(want[a - 1]) || (z < want.size() && cased(want[z])))
                return false;
        }
    return true;
}

void character(char32_t c)
{
    h::mark("character", &c, 4, 4);
    auto const in = ref::ok(c);
    auto bad = [&](std::string const& k, std::string const& d) { h::violation(k, h::cphex(c), d); };
    char32_t const simple[4] = { simple_uppercase(c), simple_lowercase(c), simple_titlecase(c), simple_casefold(c) };
    char32_t const want[4] = { in ? ref::A.upper[c] : c, in ? ref::A.lower[c] : c, in ? ref::A.title[c] : c, in ? ref::A.fold[c] : c };
    case_mapping_result const fl[4] = { full_uppercase(c), full_lowercase(c), full_titlecase(c), full_casefold(c) };
    bool const ch[4] = { changes_when_uppercased(c), changes_when_lowercased(c), changes_when_titlecased(c), changes_when_casefolded(c) };
    bool any = false;
    for (int o = 0; o < 4; ++o)
    {
        if (simple[o] != want[o])
            bad(std::string("simple/") + Name[o], "got " + h::cphex(simple[o]) + " want " + h::cphex(want[o]));
        auto const w = full(Op(o), c);
        bool const same_ = w == u32(1, c);
        if (fl[o].length > MaxCaseMappingLength)
            bad(std::string("full/") + Name[o], "length " + std::to_string(fl[o].length));
        else if (same_ ? !(fl[o].is_identity() && fl[o].view().empty()) : (fl[o].is_identity() || fl[o].view() != w))
            bad(std::string("full/") + Name[o], "got " + h::hex(fl[o].view()) + " want " + (same_ ? "identity" : h::hex(w)));
        if (ch[o] != (!same_ || want[o] != c))
            bad(std::string("changes_when/") + Name[o], ch[o] ? "true" : "false");
        if (!same_)
            any = true;
    }
    if (is_cased(c) != letter(c) && is_cased(c) != cased(c))
        bad("is_cased", is_cased(c) ? "true" : "false");
    if (is_case_ignorable(c) != ignorable(c))
        bad("is_case_ignorable", is_case_ignorable(c) ? "true" : "false");
    h::count("characters compared");
    if (any)
    {
        h::g.nontrivial++;
        h::seen("distinct characters with mappings", c);
    }
}
void text(u32 const& s)
{
    h::mark("text", s);
    h::exact<char32_t> e(s);
    bool const wf = std::all_of(s.begin(), s.end(), ref::scalar);
    h::exact<char> b(wf ? ref::to8(s) : std::string());
    u32 const want[4] = { map(UP, s), map(LOW, s), title(s, false), map(FOLD, s) };
    u32 const got[4] = { to_uppercase(e.view()), to_lowercase(e.view()), to_titlecase(e.view()), casefold(e.view()) };
    std::string got8[4];
    if (wf)
        got8[0] = to_uppercase(b.view()), got8[1] = to_lowercase(b.view()), got8[2] = to_titlecase(b.view()), got8[3] = casefold(b.view());
    for (int o = 0; o < 4; ++o)
    {
        bool good = (o == LOW || o == TITLE) ? same(got[o], want[o]) : got[o] == want[o];
        if (!good && o == TITLE)
            good = same(got[o], title(s, true));
        if (!good)
            h::violation(std::string("text/") + Name[o], h::hex(s), "got " + h::hex(got[o]) + " want " + h::hex(want[o]));
        if (wf && got8[o] != ref::to8(got[o]))
            h::violation(std::string("text/utf8/") + Name[o], h::hex(s), "got " + h::hex(got8[o]) + " want " + h::hex(ref::to8(got[o])));
        h::count("texts mapped");
        if (got[o] != s)
        {
            h::g.nontrivial++;
            h::seen("distinct changed texts", h::hash_str(s));
        }
    }
    // laws, on the library's results alone
    auto const& f = got[3];
    if (casefold(std::u32string_view(f)) != f)
        h::violation("law/fold is idempotent", h::hex(s), h::hex(f));
    if (to_uppercase(std::u32string_view(got[0])) != got[0] )
        h::violation("law/upper is idempotent", h::hex(s), h::hex(got[0]));
}
char32_t gen(h::Rng& r)
{
    switch (r.below(10))
    {
        case 0: return ref::from(r, ref::Interesting);
        case 1:
        case 2: return ref::from(r, ref::P.special);
        case 3:
        case 4:
        case 5: return ref::from(r, ref::P.cased);
        case 6: return ref::gen_word(r);
        case 7: return 0x20;
        default: return 0x20 + r.below(95);
    }
}
} // namespace

int run_harness()
{
    ref::load();
    ref::pools();
    h::Rng r(h::g.seed, 13, uint64_t(h::g.shard));
    text({});
    h::shard_loop(0x1100, [&](uint64_t b) {
        for (char32_t c = char32_t(b * 256); c < (b + 1) * 256; ++c)
        {
            character(c);
            if (ref::A.upper[c] != c || ref::A.lower[c] != c || ref::A.fold[c] != c || letter(c) || cased(c) || ignorable(c) || h::g.thorough || c % 64 == 0)
            {
                text({ c });
                text({ U'a', c, U'B' });
                text({ U'\'', c, 0x3A3, U'.', c });
                text({ c, c, U' ', c });
                h::count("characters in context");
            }
        }
    });
    for (int i = 0; i < 4000; ++i)
        character(char32_t(0x110000 + r.next() % 0xFFEF0000u));
    h::shard_loop(h::tier(120000, 3000000), [&](uint64_t) { text(ref::gen_string(r, gen, 14)); });
    h::shard_loop(h::tier(30000, 800000), [&](uint64_t) { text(ref::gen_any_text(r, 16)); });
    auto const long_text = [&](u32 const& s) { text(s); };
    ref::long_texts(r, long_text);
    ref::huge_texts(long_text);
    ref::far_texts(r, long_text);
    h::sample("random text", h::hex(ref::gen_string(r, gen, 14)));
    return 0;
}

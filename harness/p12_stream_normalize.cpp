// P12: streaming normalization yields the batch result, however the input is cut and however often the object is reused.
#include "malformed.hpp"
#include <libunicode/normalization.h>

using namespace unicode;
using ref::Form;
using ref::u32;
namespace
{
constexpr Normalization_Form NF[] = { Normalization_Form::NFC, Normalization_Form::NFD, Normalization_Form::NFKC, Normalization_Form::NFKD };
constexpr Form RF[] = { Form::C, Form::D, Form::KC, Form::KD };
char const* const Name[] = { "NFC", "NFD", "NFKC", "NFKD" };

// Long-lived objects, reused for every text of a run; some texts are abandoned with reset().
struct Objs
{
    std::vector<normalizer> n;
    std::vector<utf8_normalizer> u;
    Objs()
    {
        for (auto f: NF)
        {
            n.emplace_back(f);
            u.emplace_back(f);
        }
    }
} *objs;

void cp(u32 const& s)
{
    h::mark("streamed code points", s);
    for (int f = 0; f < 4; ++f)
    {
        auto const want = ref::normalize(s, RF[f]);
        for (int reused = 0; reused < 2; ++reused)
        {
            normalizer fresh(NF[f]);
            auto& n = reused ? objs->n[size_t(f)] : fresh;
            u32 out;
            size_t events = 0;
            for (size_t i = 0; i < s.size(); ++i)
            {
                auto v = n.feed(s[i]);
                if (!v.empty())
                    ++events;
                out += v;
                // what has been delivered is final
                if (!v.empty() && (out.size() > want.size() || out.compare(out.size() - v.size(), v.size(), want, out.size() - v.size(), v.size()) != 0))
                {
                    h::violation(std::string(Name[f]) + "/delivered early", h::hex(s), "after " + std::to_string(i + 1) + ": " + h::hex(out) + " is no prefix of " + h::hex(want));
                    break;
                }
            }
            out += n.flush();
            if (out != want)
                h::violation(std::string(Name[f]) + (reused ? "/reused" : "/fresh"), h::hex(s), "got " + h::hex(out) + " want " + h::hex(want));
            if (!n.flush().empty())
                h::violation(std::string(Name[f]) + "/flush twice", h::hex(s), "second flush is not empty");
            h::count("streams compared");
            h::count("segments delivered", events);
        }
        if (want != s && s.size() > 1)
        {
            h::g.nontrivial++;
            h::seen("distinct changed texts", h::hash_str(s));
        }
    }
}
void bytes(h::Rng& r, std::string const& in, std::vector<size_t> const& cuts, u32 const* text)
{
    h::mark("streamed bytes", in);
    for (int f = 0; f < 4; ++f)
    {
        auto& u = objs->u[size_t(f)];
        if (r.chance(1, 8))
        { // a text that is abandoned, in the middle of a character or of a combining sequence
            auto junk = ref::to8(ref::gen_string(r, ref::gen_norm, 4));
            junk.resize(r.below(uint32_t(junk.size() + 1)));
            (void) u.feed(junk);
            u.reset();
            h::count("resets");
        }
        utf8_normalizer fresh(NF[f]);
        std::string o1, o2;
        for (size_t i = 0; i + 1 < cuts.size(); ++i)
        {
            h::exact<char> e(std::string_view(in).substr(cuts[i], cuts[i + 1] - cuts[i]));
            o1 += u.feed(e.view());
            o2 += fresh.feed(e.view());
        }
        o1 += u.flush();
        o2 += fresh.flush();
        auto where = h::hex(in) + " cut " + h::list(cuts);
        if (o1 != o2)
            h::violation(std::string(Name[f]) + "/utf8 reused differs from fresh", where, h::hex(o1) + " | " + h::hex(o2));
        if (text)
        {
            auto const want = ref::to8(ref::normalize(*text, RF[f]));
            if (o2 != want)
                h::violation(std::string(Name[f]) + "/utf8", where, "got " + h::hex(o2) + " want " + h::hex(want));
        }
        else
        { // malformed: same output for every way of cutting it
            utf8_normalizer whole(NF[f]);
            std::string w(whole.feed(in));
            w += whole.flush();
            if (w != o2)
                h::violation(std::string(Name[f]) + "/utf8 malformed depends on the cuts", where, h::hex(o2) + " whole: " + h::hex(w));
        }
        if (!fresh.flush().empty() || !u.flush().empty())
            h::violation(std::string(Name[f]) + "/utf8 flush twice", where, "");
        h::count(text ? "byte streams compared" : "malformed byte streams compared");
        h::count("chunks", cuts.size() - 1);
    }
    h::seen("distinct ways of cutting", h::hash_bytes(cuts.data(), cuts.size() * sizeof(size_t)));
}
void cuts(h::Rng& r, std::string const& in, u32 const* text)
{
    std::vector<size_t> all, two { 0, in.size() }, rnd { 0 };
    for (size_t i = 0; i <= in.size(); ++i)
        all.push_back(i);
    bytes(r, in, two, text);
    bytes(r, in, all, text);
    for (size_t i = 0; i < in.size();)
    {
        i = std::min(in.size(), i + r.below(6));
        rnd.push_back(i);
    }
    bytes(r, in, rnd, text);
    if (in.size() <= 12)
        for (size_t i = 1; i < in.size(); ++i)
            bytes(r, in, { 0, i, in.size() }, text);
}
} // namespace

int run_harness()
{
    ref::load();
    ref::pools();
    Objs o;
    objs = &o;
    h::Rng r(h::g.seed, 12, uint64_t(h::g.shard));
    cp({});
    cuts(r, "", nullptr);
    h::shard_loop(ref::normTests.size(), [&](uint64_t i) {
        auto const& t = ref::normTests[i];
        cp(t.c[0]);
        if (h::g.thorough || t.c[0].size() > 1 || i % 8 == 0)
        {
            cp(t.c[0] + ref::normTests[(i * 131 + 7) % ref::normTests.size()].c[r.below(5)]);
            cuts(r, ref::to8(t.c[0]), &t.c[0]);
        }
    });
    // every character that takes part in normalization, after characters of each kind
    h::shard_loop(0x1100, [&](uint64_t b) {
        for (char32_t c = char32_t(b * 256); c < (b + 1) * 256; ++c)
        {
            bool active = ref::A.qc[c] || ref::A.ccc[c] || ref::decomp.count(c) || (ref::hangul_s(c) && c % 7 == 0);
            if (!active && !(h::g.thorough || c % 64 == 0))
                continue;
            cp({ U'a', c });
            cp({ U'a', 0x30A, c, 0x323, c });
            cp({ 0x1100, 0x1161, c });
            cp({ 0x301, c, 0x11A8 });
            cp({ 0x915, c, 0x93C, c });
            h::count("characters in context");
        }
    });
    std::vector<std::pair<char32_t, char32_t>> comps;
    for (auto& [k, c]: ref::comp)
        comps.push_back(k);
    h::shard_loop(comps.size(), [&](uint64_t i) {
        auto [a, b] = comps[i];
        cp({ a, b });
        cp({ a, 0x315, b });
        cp({ a, b, a, b });
        h::count("composition pairs");
    });
    h::shard_loop(h::tier(60000, 1500000), [&](uint64_t) { cp(ref::gen_string(r, ref::gen_norm, 10)); });
    h::shard_loop(h::tier(12000, 300000), [&](uint64_t) {
        auto s = ref::gen_string(r, ref::gen_norm, 6);
        for (auto& c: s)
            if (!ref::scalar(c))
                c = U'x';
        cuts(r, ref::to8(s), &s);
    });
    h::shard_loop(h::tier(6000, 150000), [&](uint64_t) {
        auto in = mal::gen(r);
        if (in.size() < 200 && !mal::well_formed(mal::tokenize(in)))
            cuts(r, in, nullptr);
    });
    h::shard_loop(h::tier(600, 20000), [&](uint64_t) { // long mark sequences
        u32 s;
        for (uint32_t n = r.below(200); n-- > 0;)
            s += r.chance(1, 25) ? ref::gen_norm(r) : ref::from(r, r.pick(ref::P.ccc));
        cp(s);
    });
    auto const long_text = [&](u32 const& s) { cp(s); };
    ref::long_texts(r, long_text);
    ref::huge_texts(long_text);
    ref::far_texts(r, long_text);
    h::sample("random text", h::hex(ref::gen_string(r, ref::gen_norm, 10)));
    return 0;
}

// P19: script runs tile the text, break exactly where no script is shared any more, and are reported as a shared script.
#include "seg_model.hpp"
#include <libunicode/script_segmenter.h>

using namespace unicode;
using ref::u32;
namespace
{
std::string name(std::vector<Script> const& v)
{
    std::string s;
    for (auto x: v)
        s += (s.empty() ? "" : "|") + std::to_string(int(x));
    return s;
}
struct Got
{
    size_t end;
    Script script;
    bool operator==(Got const&) const = default;
};
template <typename Next>
std::vector<Got> collect(Next next, size_t size, char const* who, u32 const& s)
{
    std::vector<Got> r;
    size_t last = 0;
    for (;;)
    {
        auto g = next();
        if (!g)
            break;
        if (g->end <= last || g->end > size)
        {
            h::violation(std::string(who) + "/tiling", h::hex(s), "run end " + std::to_string(g->end) + " after " + std::to_string(last));
            return r;
        }
        last = g->end;
        r.push_back(*g);
    }
    if (last != size)
        h::violation(std::string(who) + "/tiling", h::hex(s), "text of " + std::to_string(size) + " is covered up to " + std::to_string(last));
    for (int i = 0; i < 3; ++i)
        if (next())
            h::violation(std::string(who) + "/end", h::hex(s), "a run is reported behind the end");
    return r;
}
void judge(char const* who, u32 const& s, std::vector<Got> const& got, std::vector<segm::ScriptSeg> const& want)
{
    h::count("segmentations compared");
    std::vector<size_t> g, w;
    for (auto& x: got)
        g.push_back(x.end);
    for (auto& x: want)
        w.push_back(x.end);
    if (g != w)
    {
        h::violation(std::string(who) + "/boundaries", h::hex(s), "runs end at " + h::list(g) + " want " + h::list(w));
        return;
    }
    for (size_t i = 0; i < got.size(); ++i)
        if (std::find(want[i].allowed.begin(), want[i].allowed.end(), got[i].script) == want[i].allowed.end())
            h::violation(std::string(who) + "/script", h::hex(s),
                         "run " + std::to_string(i) + " reported as script " + std::to_string(int(got[i].script)) + ", shared are " + name(want[i].allowed));
}
void one(u32 const& s, h::Rng& r)
{
    h::mark("script", s);
    auto want = segm::script_segments(s);
    h::exact<char32_t> e(s);
    auto v = e.view();
    std::vector<Got> first;
    {
        script_segmenter seg(v.data(), v.size());
        first = collect(
            [&]() -> std::optional<Got> {
                auto x = seg.consume();
                return x ? std::optional<Got>(Got { x->size, x->script }) : std::nullopt;
            },
            v.size(), "consume", s);
        judge("consume", s, first, want);
    }
    {
        // the out-parameter flavour, moving between objects on the way
        script_segmenter a(v), b;
        auto got = collect(
            [&]() -> std::optional<Got> {
                size_t n = 0;
                Script x = Script::Invalid;
                bool more = a.consume(out(n), out(x));
                b = a;
                a = script_segmenter {};
                std::swap(a, b);
                return more ? std::optional<Got>(Got { n, x }) : std::nullopt;
            },
            v.size(), "out-parameters", s);
        if (got != first)
            h::violation("out-parameters/differs", h::hex(s), "from the optional-returning flavour");
    }
    if (s.find(U'\0') == u32::npos && s.size() < 64)
    {
        u32 z = s;
        z.push_back(0);
        h::exact<char32_t> ez(z);
        script_segmenter seg(ez.view().data());
        auto got = collect(
            [&]() -> std::optional<Got> {
                auto x = seg.consume();
                return x ? std::optional<Got>(Got { x->size, x->script }) : std::nullopt;
            },
            v.size(), "zero-terminated", s);
        if (got != first)
            h::violation("zero-terminated/differs", h::hex(s), "from the sized flavour");
    }
    // the rest of a text from a run boundary on is segmented as if it stood alone
    if (first.size() > 1)
    {
        auto k = r.below(uint32_t(first.size() - 1));
        auto off = first[k].end;
        h::exact<char32_t> er(std::u32string_view(s).substr(off));
        script_segmenter seg(er.view());
        std::vector<Got> got;
        while (auto x = seg.consume())
        {
            got.push_back({ x->size + off, x->script });
            if (got.size() > s.size())
                break;
        }
        if (got != std::vector<Got>(first.begin() + k + 1, first.end()))
            h::violation("suffix/differs", h::hex(s), "from offset " + std::to_string(off));
        h::count("suffixes compared");
    }
    h::count("runs", first.size());
    for (auto& w: want)
    {
        if (segm::wild(w.shared))
            h::count("runs without script");
        else if (w.shared.size() > 1)
            h::count("runs that several scripts share");
    }
    if (s.size() > 1)
    {
        h::g.nontrivial++;
        h::seen("distinct texts", h::hash_str(s));
    }
}
} // namespace

int run_harness()
{
    ref::load();
    ref::pools();
    segm::classes();
    h::Rng r(h::g.seed, 19, uint64_t(h::g.shard));
    auto const k = segm::SC.bySet.size();
    h::count("script sets", h::g.shard == 0 ? k : 0);
    one({}, r);
    {
        script_segmenter none;
        if (none.consume())
            h::violation("default", "", "a default-constructed segmenter reports a run");
        script_segmenter null(static_cast<char32_t const*>(nullptr));
        if (null.consume())
            h::violation("null", "", "a segmenter of nothing reports a run");
    }
    h::shard_loop(0x1100, [&](uint64_t b) {
        for (char32_t c = char32_t(b * 256); c < (b + 1) * 256; ++c)
        {
            one({ c }, r);
            h::count("code points alone");
            if (h::g.thorough || c % 8 == 0 || segm::set_of(c).size() > 1)
            {
                one({ U'1', c, U'2' }, r);
                one({ U'a', c, 0x5D0 }, r);
            }
        }
    });
    // all pairs and (thorough: all, quick: some) triples of script sets
    h::shard_loop(k * k, [&](uint64_t i) {
        one({ segm::of_set(r, i % k), segm::of_set(r, i / k) }, r);
        h::count("pairs of script sets");
    });
    auto const m = segm::SC.multi.size();
    h::shard_loop(m * m * m, [&](uint64_t i) {
        if (!h::g.thorough && r.below(4))
            return;
        one({ segm::of_set(r, segm::SC.multi[i % m]), segm::of_set(r, segm::SC.multi[i / m % m]), segm::of_set(r, segm::SC.multi[i / m / m]) }, r);
        h::count("triples of sets of several scripts");
    });
    h::shard_loop(h::tier(200000, 6000000), [&](uint64_t) { one(segm::gen_script_text(r, 10), r); });
    h::shard_loop(h::tier(40000, 1000000), [&](uint64_t) { one(ref::gen_any_text(r, 16), r); });
    auto const long_text = [&](u32 const& s) { one(s, r); };
    ref::long_texts(r, long_text);
    ref::huge_texts(long_text);
    ref::far_texts(r, long_text);
    h::sample("random text", h::hex(segm::gen_script_text(r, 10)));
    return 0;
}

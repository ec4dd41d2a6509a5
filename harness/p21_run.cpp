// P21: runs are the common refinement of what the component segmenters report, with their properties.
#include "seg_model.hpp"
#include <libunicode/run_segmenter.h>

using namespace unicode;
using ref::u32;
namespace
{
/// A segmenter of the interface run segmentation composes: text units encode the wanted boundaries and
/// properties (bit B: a boundary in front of this unit; the property is a hash of the run's start).
template <int B>
class stub
{
    char32_t const* p_ = nullptr;
    size_t n_ = 0, at_ = 0;

  public:
    struct property_type
    {
        uint32_t v = 0;
        bool operator==(property_type const&) const = default;
        friend std::ostream& operator<<(std::ostream& os, property_type x) { return os << x.v; }
    };
    stub() = default;
    stub(char32_t const* p, size_t n): p_ { p }, n_ { n } {}
    static uint32_t prop(char32_t c, size_t at) { return uint32_t(c) * 31 + uint32_t(at) * 7 + B; }
    bool consume(out<size_t> size, out<property_type> prop_)
    {
        if (at_ >= n_)
            return false;
        auto b = at_++;
        while (at_ < n_ && !(p_[at_] >> B & 1))
            ++at_;
        *size = at_;
        *prop_ = property_type { prop(p_[b], b) };
        return true;
    }
};
struct Run
{
    size_t begin, end;
    std::vector<uint64_t> props;
    bool operator==(Run const&) const = default;
};
std::string show(std::vector<Run> const& v)
{
    std::string s;
    for (auto& x: v)
    {
        s += (s.empty() ? "" : " ") + std::to_string(x.begin) + ".." + std::to_string(x.end) + "(";
        for (auto p: x.props)
            s += std::to_string(p) + ",";
        s += ")";
    }
    return s;
}
template <typename S>
std::vector<Run> component(std::u32string_view v)
{
    std::vector<Run> r;
    S seg { v.data(), v.size() };
    size_t n = 0, last = 0;
    typename S::property_type p {};
    while (seg.consume(out(n), out(p)) && n > last)
    {
        uint64_t val;
        if constexpr (requires { p.v; })
            val = p.v;
        else
            val = uint64_t(p);
        r.push_back({ last, n, { val } });
        last = n;
    }
    return r;
}
/// the run of v that covers unit b, or the end
template <typename V>
auto covering(V const& v, size_t b)
{
    auto y = std::lower_bound(v.begin(), v.end(), b, [](auto& run, size_t at) { return run.end <= at; });
    return y != v.end() && y->begin <= b ? y : v.end();
}
std::vector<Run> refine(std::vector<std::vector<Run>> const& parts, size_t size)
{
    std::set<size_t> ends;
    for (auto& p: parts)
        for (auto& x: p)
            ends.insert(x.end);
    std::vector<Run> out;
    size_t b = 0;
    for (auto e: ends)
    {
        Run x { b, e, {} };
        for (auto& p: parts)
        {
            if (auto y = covering(p, b); y != p.end())
                x.props.push_back(y->props[0]);
        }
        out.push_back(x);
        b = e;
    }
    (void) size;
    return out;
}
template <typename... S>
void compose(char const* who, u32 const& s)
{
    h::mark(who, s);
    h::exact<char32_t> e(s);
    auto v = e.view();
    std::vector<std::vector<Run>> parts { component<S>(v)... };
    auto want = refine(parts, v.size());
    for (int flavour = 0; flavour < 2; ++flavour)
    {
        using seg_t = basic_run_segmenter<S...>;
        seg_t seg = flavour ? seg_t(v) : seg_t(v.data(), v.size());
        typename seg_t::range rg {};
        std::vector<Run> got;
        bool bad = false;
        size_t last = 0;
        while (true)
        {
            bool fin = seg.finished();
            if (!seg.consume(out(rg)))
            {
                if (!fin)
                    h::violation(std::string(who) + "/finished", h::hex(s), "not finished, but nothing to consume");
                break;
            }
            if (fin)
                h::violation(std::string(who) + "/finished", h::hex(s), "finished, but something to consume");
            if (rg.start != last || rg.end <= rg.start || rg.end > v.size())
            {
                h::violation(std::string(who) + "/tiling", h::hex(s), "run " + std::to_string(rg.start) + ".." + std::to_string(rg.end) + " after " + std::to_string(last));
                bad = true;
                break;
            }
            last = rg.end;
            if (!(rg == rg) || rg != rg)
                h::violation(std::string(who) + "/equality", h::hex(s), "a run is not equal to itself");
            Run x { rg.start, rg.end, {} };
            std::apply(
                [&](auto const&... p) {
                    auto one = [&](auto const& q) {
                        if constexpr (requires { q.v; })
                            x.props.push_back(q.v);
                        else
                            x.props.push_back(uint64_t(q));
                    };
                    (one(p), ...);
                },
                rg.properties);
            got.push_back(x);
        }
        if (bad)
            return;
        for (int i = 0; i < 2; ++i)
            if (seg.consume(out(rg)))
                h::violation(std::string(who) + "/end", h::hex(s), "a run is reported behind the end");
        h::count(who);
        if (got != want)
            h::violation(std::string(who) + "/refinement", h::hex(s), "got " + show(got) + " want " + show(want));
    }
    h::count("runs", want.size());
    if (parts.size() > 1 && parts[0].size() > 1 && parts[1].size() > 1)
    {
        h::count("texts both components split");
        bool both = false;
        for (auto& a: parts[0])
            both = both || (a.end != s.size() && covering(parts[1], a.end - 1)->end == a.end);
        if (both)
            h::count("texts with a coinciding boundary");
    }
    if (want.size() > 1)
    {
        h::g.nontrivial++;
        h::seen("distinct texts", h::hash_str(s));
    }
}
/// the shipped segmenter against the models of its components
void shipped(u32 const& s)
{
    h::mark("shipped", s);
    auto sc = segm::script_segments(s);
    auto em = segm::emoji_segments(s);
    std::set<size_t> ends;
    for (auto& x: sc)
        ends.insert(x.end);
    for (auto& x: em)
        ends.insert(x.end);
    h::exact<char32_t> e(s);
    run_segmenter seg(e.view());
    run_segmenter::range rg {};
    size_t b = 0;
    for (auto end: ends)
    {
        if (!seg.consume(out(rg)))
        {
            h::violation("shipped/short", h::hex(s), "ends at " + std::to_string(b));
            return;
        }
        if (rg.start != b || rg.end != end)
        {
            h::violation("shipped/bounds", h::hex(s), "run " + std::to_string(rg.start) + ".." + std::to_string(rg.end) + " want " + std::to_string(b) + ".." + std::to_string(end));
            return;
        }
        if (auto x = covering(sc, b); x != sc.end())
            if (std::find(x->allowed.begin(), x->allowed.end(), std::get<0>(rg.properties)) == x->allowed.end())
                h::violation("shipped/script", h::hex(s), "run at " + std::to_string(b) + " reported as script " + std::to_string(int(std::get<0>(rg.properties))));
        if (auto x = covering(em, b); x != em.end())
            if (std::get<1>(rg.properties) != x->style)
                h::violation("shipped/style", h::hex(s), "run at " + std::to_string(b));
        b = end;
    }
    if (seg.consume(out(rg)))
        h::violation("shipped/long", h::hex(s), "a run behind the end");
    h::count("shipped segmentations compared");
}
void one(u32 const& s)
{
    shipped(s);
    compose<script_segmenter, emoji_segmenter>("script+emoji", s);
}
void other(u32 const& s)
{
    compose<emoji_segmenter, script_segmenter>("emoji+script", s);
    compose<script_segmenter>("script", s);
    compose<emoji_segmenter>("emoji", s);
    compose<script_segmenter, stub<0>, emoji_segmenter>("script+stub+emoji", s);
}
void stubs(u32 const& s)
{
    compose<stub<0>>("stub", s);
    compose<stub<0>, stub<1>>("stub+stub", s);
    compose<stub<2>, stub<0>, stub<1>>("stub+stub+stub", s);
    h::count("boundary patterns");
}
u32 mixed(h::Rng& r)
{
    u32 s;
    auto n = 1 + r.below(6);
    for (uint32_t i = 0; i < n; ++i)
        switch (r.below(4))
        {
            case 0: s += segm::gen_script_text(r, 4); break;
            case 1: s += ref::emojiSeqs[r.below(uint32_t(ref::emojiSeqs.size()))].second; break;
            case 2: s += segm::gen_cat_text(r, 3); break;
            default: s += ref::from(r, ref::Interesting); break;
        }
    return s;
}
} // namespace

int run_harness()
{
    ref::load();
    ref::pools();
    segm::classes();
    h::Rng r(h::g.seed, 21, uint64_t(h::g.shard));
    one({});
    other({});
    stubs({});
    // every pattern of boundaries of three components, up to 5 (thorough: 7) units
    for (int len = 1; len <= (h::g.thorough ? 7 : 5); ++len)
        h::shard_loop(uint64_t(1) << (3 * len), [&](uint64_t i) {
            u32 s;
            for (int j = 0; j < len; ++j, i >>= 3)
                s += char32_t((i & 7) | (r.below(1000) << 3));
            stubs(s);
        });
    h::shard_loop(h::tier(100000, 2000000), [&](uint64_t) {
        u32 s;
        auto n = r.below(40);
        auto p = 1 + r.below(6);
        for (uint32_t i = 0; i < n; ++i)
            s += char32_t((r.chance(1, p) ? r.below(8) : 0) | (r.below(1000) << 3));
        stubs(s);
    });
    h::shard_loop(ref::emojiSeqs.size(), [&](uint64_t i) {
        auto& e = ref::emojiSeqs[i].second;
        one(e);
        one(U"a" + e + U"\u05D0");
        one(U"\u05D0" + e + U"\u0301");
        other(U"a" + e + e);
    });
    h::shard_loop(h::tier(250000, 6000000), [&](uint64_t i) {
        auto s = mixed(r);
        one(s);
        if (i % 8 == 0)
            other(s);
    });
    h::shard_loop(h::tier(40000, 1000000), [&](uint64_t) { one(ref::gen_any_text(r, 20)); });
    auto const long_text = [&](u32 const& s) { one(s); };
    ref::long_texts(r, long_text);
    ref::huge_texts(long_text);
    ref::far_texts(r, [&](u32 const& s) { shipped(s); }, 3);
    h::sample("random text", h::hex(mixed(r)));
    return 0;
}

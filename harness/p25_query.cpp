// P25: unicode-query answers every argument list with the library's values, and shows texts completely, in order and escaped.
#include "malformed.hpp"
#include <algorithm>
#define main unicode_query_main
#include <tools/unicode-query.cpp>
#undef main

using ref::u32;
namespace
{
struct Output
{
    int rc;
    std::string out, err;
};
/// A device that is full after so many bytes.
struct FullDevice: std::streambuf
{
    size_t left;
    std::string got;
    explicit FullDevice(size_t n): left(n) {}
    int_type overflow(int_type c) override
    {
        if (traits_type::eq_int_type(c, traits_type::eof()))
            return traits_type::not_eof(c);
        if (!left)
            return traits_type::eof();
        --left;
        got += char(c);
        return c;
    }
};
Output run(std::vector<std::string> const& args, size_t room = size_t(-1))
{
    std::string flat;
    for (auto& a: args)
        flat += a + '\n';
    h::mark("unicode-query", flat);
    std::vector<std::unique_ptr<h::exact<char>>> store;
    std::vector<char const*> argv;
    for (auto& a: args)
    {
        store.push_back(std::make_unique<h::exact<char>>(std::string(a.c_str(), a.size() + 1)));
        argv.push_back(store.back()->data());
    }
    argv.push_back(nullptr);
    std::ostringstream o, e;
    FullDevice full(room);
    bool const limited = room != size_t(-1);
    auto* so = std::cout.rdbuf(limited ? static_cast<std::streambuf*>(&full) : o.rdbuf());
    auto* se = std::cerr.rdbuf(e.rdbuf());
    std::cout.copyfmt(std::ios(nullptr)); // as in a fresh process
    int rc = unicode_query_main(int(args.size()), argv.data());
    std::cout.rdbuf(so);
    std::cerr.rdbuf(se);
    std::cout.clear();
    std::cerr.clear();
    h::count("invocations");
    return { rc, limited ? full.got : o.str(), e.str() };
}
std::string show(std::vector<std::string> const& args)
{
    std::string s;
    for (auto& a: args)
        s += "<" + h::hex(a) + "> ";
    return s;
}
int hexval(char c)
{
    return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}
/// The same again, with room for only a part of the output: it must not pass for success.
void cut_short(h::Rng& r, std::vector<std::string> const& args, std::string const& all)
{
    if (all.empty())
        return;
    auto const room = r.chance(1, 4) ? all.size() - 1 : r.below(uint32_t(all.size()));
    auto const o = run(args, room);
    if (o.rc == 0 || all.compare(0, o.out.size(), o.out) != 0)
        h::violation("output cut short", show(args), "room for " + std::to_string(room) + " of " + std::to_string(all.size()) + " bytes: exit " + std::to_string(o.rc) + ", written " + h::hex(o.out));
    h::count("outputs cut short");
}
/// Is `shown` a rendering of `text`, with \xHH for what must not appear as it is?
bool renders(std::string_view shown, std::string_view text, bool all)
{
    std::vector<char> at(shown.size() + 1, 0), next;
    at[0] = 1;
    for (size_t k = 0; k < text.size(); ++k)
    {
        char const c = text[k];
        auto const b = uint8_t(c);
        auto const byte = [&](size_t j) { return j < text.size() ? uint8_t(text[j]) : uint8_t(0); };
        bool const c1 = (b == 0xC2 && byte(k + 1) >= 0x80 && byte(k + 1) < 0xA0) || (k && byte(k - 1) == 0xC2 && b < 0xA0);
        bool const control = b < 0x20 || b == 0x7F || c1;
        bool const mustEscape = control || (all && (b >= 0x7F || b == '"'));
        bool const mustNot = !all && !control;
        next.assign(shown.size() + 1, 0);
        for (size_t i = 0; i < shown.size(); ++i)
        {
            if (!at[i])
                continue;
            if (!mustEscape && shown[i] == c)
                next[i + 1] = 1;
            if (!mustNot && i + 4 <= shown.size() && shown[i] == '\\' && shown[i + 1] == 'x' && hexval(shown[i + 2]) * 16 + hexval(shown[i + 3]) == b
                && hexval(shown[i + 2]) >= 0 && hexval(shown[i + 3]) >= 0)
                next[i + 4] = 1;
        }
        at.swap(next);
    }
    return at[shown.size()];
}
std::vector<std::string> lines(std::string const& s)
{
    std::vector<std::string> r;
    size_t a = 0;
    for (size_t b; (b = s.find('\n', a)) != s.npos; a = b + 1)
        r.push_back(s.substr(a, b - a));
    if (a < s.size())
        r.push_back(s.substr(a) + "<no newline>");
    return r;
}
template <typename T>
std::string label(T v)
{
    return std::format("{}", v);
}

// ------------------------------------------------------------------ properties
struct Block
{
    std::map<std::string, std::string> f;
};
std::vector<Block> blocks(std::string const& out)
{
    std::vector<Block> r;
    bool open = false;
    // a value may itself be a line feed or a carriage return only if the character is a control; those are escaped
    for (auto& l: lines(out))
    {
        if (l.empty())
        {
            open = false;
            continue;
        }
        if (!open)
            r.emplace_back();
        open = true;
        auto c = l.find(':');
        if (c == l.npos)
        {
            r.back().f["?"] = l;
            continue;
        }
        auto k = l.substr(0, c);
        while (!k.empty() && k.back() == ' ')
            k.pop_back();
        auto v = l.substr(c + 1);
        if (!v.empty() && v[0] == ' ')
            v.erase(0, 1);
        r.back().f[k] = v;
    }
    return r;
}
void judge_block(Block& b, char32_t c, std::string const& in)
{
    auto const p = unicode::codepoint_properties::get(c);
    auto expect = [&](char const* k, std::string const& want) {
        h::count("fields compared");
        auto it = b.f.find(k);
        if (it == b.f.end() || it->second != want)
            h::violation(std::string("properties/") + k, in, h::cphex(c) + ": shown '" + (it == b.f.end() ? "(absent)" : it->second) + "', want '" + want + "'");
    };
    expect("Name", std::string(unicode::codepoint_properties::name(c)));
    char buf[32];
    std::snprintf(buf, sizeof buf, "U+%x", unsigned(c));
    expect("Codepoint", buf);
    if (p.age != unicode::Age::Unassigned)
    {
        auto a = label(p.age).substr(1);
        std::replace(a.begin(), a.end(), '_', '.');
        expect("Unicode Version", a);
    }
    else if (b.f["Unicode Version"] != "Unassigned")
        h::violation("properties/Unicode Version", in, h::cphex(c) + " is unassigned, shown '" + b.f["Unicode Version"] + "'");
    if (ref::scalar(c))
    {
        auto const bytes = ref::to8(u32(1, c));
        auto const& u = b.f["UTF-8"];
        if (u.size() < 2 || u.front() != '"' || u.back() != '"' || !renders(std::string_view(u).substr(1, u.size() - 2), bytes, true))
            h::violation("properties/UTF-8", in, h::cphex(c) + ": shown " + u + ", want " + h::hex(bytes));
        if (p.general_category != unicode::General_Category::Control)
            expect("Display", bytes);
        else if (b.f.count("Display"))
            h::violation("properties/Display", in, h::cphex(c) + ": a control code is displayed");
    }
    expect("Plane", label(unicode::plane(c)));
    expect("Block", label(unicode::block(c)));
    expect("Script", label(unicode::script(c)));
    expect("General Category", label(p.general_category));
    expect("East Asian Width", label(p.east_asian_width));
    expect("Character width", std::to_string(unsigned(p.char_width)));
    expect("Emoji Segmentation Category", label(p.emoji_segmentation_category));
    expect("Emoji Presentation", (c < 0x110000 && (ref::EMO(c) & ref::EPRES)) ? "emoji" : "text");
    expect("Grapheme Cluster Break", label(p.grapheme_cluster_break));
}
std::string uplus(h::Rng& r, uint64_t c)
{
    char const* f[] = { "U+%llX", "U+%llx", "U+%04llX", "U+%08llX", "U+%06llx" };
    char b[64];
    std::snprintf(b, sizeof b, f[r.below(5)], (unsigned long long) c);
    return b;
}
/// Arguments with what they must produce.
void properties(h::Rng& r, std::vector<char32_t> const& asked)
{
    std::vector<std::string> args { "unicode-query" };
    if (r.chance(1, 3))
        args.push_back("properties");
    std::vector<char32_t> want;
    size_t errors = 0;
    for (auto c: asked)
    {
        switch (r.below(12))
        {
            case 0: { // as text; must not be taken for a command or a code point
                u32 s;
                for (int k = 1 + int(r.below(3)); k-- > 0;)
                    s += ref::scalar(c) && c ? c : U'x';
                if (args.size() == 1)
                    s = U"." + s;
                if (s.starts_with(U"U+"))
                    s = U"_" + s;
                // the output is parsed by line; the lines that name line breaks are judged, all others too
                args.push_back(ref::to8(s));
                want.insert(want.end(), s.begin(), s.end());
                break;
            }
            case 1: { // no code point at all
                char const* bad[] = { "U+G", "U+12x", "U+-1", "U+ 41", "U+41 ", "U+0x41", "" };
                args.push_back(bad[r.below(7)]);
                if (args.size() == 2 && args.back().empty())
                    args.back() = "U+Z";
                ++errors;
                break;
            }
            case 2: { // too large for any code point, and for the type
                args.push_back(uplus(r, (uint64_t(1 + r.below(0xFFFFF)) << 32) | c));
                ++errors;
                break;
            }
            default:
                args.push_back(uplus(r, c));
                want.push_back(c);
        }
    }
    if (args.size() == 1)
        return;
    auto const o = run(args);
    auto const in = show(args);
    auto bs = blocks(o.out);
    if (lines(o.err).size() != errors)
        h::violation("properties/errors", in, std::to_string(errors) + " arguments are no code points; errors shown: " + o.err);
    if ((o.rc != 0) != (errors != 0))
        h::violation("properties/exit", in, "exit " + std::to_string(o.rc) + " with " + std::to_string(errors) + " errors");
    h::count("arguments that are no code points", errors);
    if (r.chance(1, 16))
        cut_short(r, args, o.out);
    if (bs.size() != want.size())
    {
        h::violation("properties/count", in, "shown " + std::to_string(bs.size()) + " code points, want " + std::to_string(want.size()));
        return;
    }
    for (size_t i = 0; i < bs.size(); ++i)
        judge_block(bs[i], want[i], in);
    h::count("code points shown", want.size());
    h::g.nontrivial++;
}

// ------------------------------------------------------------------ texts
std::vector<std::string> text_args(h::Rng& r, char const* cmd, bool& all, std::vector<std::string> const& texts)
{
    std::vector<std::string> args { "unicode-query", cmd };
    all = r.chance(1, 2);
    if (all)
        args.push_back("-e");
    if (r.chance(1, 2) || (!texts.empty() && texts[0].starts_with("-")))
        args.push_back("--");
    args.insert(args.end(), texts.begin(), texts.end());
    return args;
}
void clusters(h::Rng& r, std::vector<u32> const& texts)
{
    bool all;
    std::vector<std::string> t8, want;
    for (auto& t: texts)
    {
        t8.push_back(ref::to8(t));
        auto b = ref::grapheme_bounds(t);
        for (size_t i = 0; i + 1 < b.size(); ++i)
            want.push_back(ref::to8(t.substr(b[i], b[i + 1] - b[i])));
    }
    auto const args = text_args(r, "gc", all, t8);
    auto const o = run(args);
    auto const ls = lines(o.out);
    if (r.chance(1, 8))
        cut_short(r, args, o.out);
    if (o.rc != 0 || !o.err.empty())
        h::violation("gc/exit", show(args), "exit " + std::to_string(o.rc) + " " + o.err);
    bool same = ls.size() == want.size();
    for (size_t i = 0; same && i < ls.size(); ++i)
        same = renders(ls[i], want[i], all);
    h::count("clusters shown", ls.size());
    if (!same)
    {
        std::string w;
        for (auto& x: want)
            w += "[" + h::hex(x) + "] ";
        h::violation(all ? "gc/escaped" : "gc", show(args), "shown " + h::hex(o.out) + " want clusters " + w);
    }
    h::g.nontrivial++;
}
void runs(h::Rng& r, std::vector<u32> const& texts)
{
    bool all;
    std::vector<std::string> t8;
    for (auto& t: texts)
        t8.push_back(ref::to8(t));
    auto const args = text_args(r, "runs", all, t8);
    auto const o = run(args);
    if (o.rc != 0 || !o.err.empty())
        h::violation("runs/exit", show(args), "exit " + std::to_string(o.rc) + " " + o.err);
    if (r.chance(1, 8))
        cut_short(r, args, o.out);
    auto const ls = lines(o.out);
    size_t at = 0;
    for (auto& t: texts)
    {
        unicode::run_segmenter rs(t);
        unicode::run_segmenter::range g {};
        while (rs.consume(unicode::out(g)))
        {
            auto const head = std::to_string(g.start) + "-" + std::to_string(g.end - 1) + " (" + std::to_string(g.end - g.start) + "): "
                              + label(std::get<unicode::Script>(g.properties)) + " " + label(std::get<unicode::PresentationStyle>(g.properties));
            auto const text = ref::to8(t.substr(g.start, g.end - g.start));
            bool const ok = at + 2 < ls.size() && ls[at] == head && ls[at + 1].size() >= 2 && ls[at + 1].front() == '"' && ls[at + 1].back() == '"'
                            && renders(std::string_view(ls[at + 1]).substr(1, ls[at + 1].size() - 2), text, all) && ls[at + 2].empty();
            if (!ok)
            {
                h::violation(all ? "runs/escaped" : "runs", show(args), "run '" + head + "' of " + h::hex(text) + " shown as " + h::hex(at < ls.size() ? ls[at] : "")
                                 + " / " + h::hex(at + 1 < ls.size() ? ls[at + 1] : ""));
                return;
            }
            at += 3;
            h::count("runs shown");
        }
    }
    if (at != ls.size())
        h::violation("runs/more", show(args), "more is shown than the texts have: " + h::hex(ls[at]));
    h::g.nontrivial++;
}
void usage()
{
    struct
    {
        std::vector<std::string> args;
        bool ok;
    } const c[] = { { { "unicode-query" }, false }, { { "unicode-query", "help" }, true }, { { "unicode-query", "gc", "-x", "a" }, false },
                    { { "unicode-query", "runs", "--what" }, false }, { { "unicode-query", "gc", "-e", "-e", "-q", "a" }, false } };
    for (auto& x: c)
    {
        auto o = run(x.args);
        if ((o.rc == 0) != x.ok || o.out.find("unicode-query") == o.out.npos)
            h::violation("usage", show(x.args), "exit " + std::to_string(o.rc) + ": " + o.out);
    }
    for (auto* cmd: { "gc", "runs", "properties" })
        for (auto& rest: std::vector<std::vector<std::string>> { {}, { "--" }, { "-e" }, { "-e", "--" }, { "" }, { "--", "", "" } })
        {
            if (!std::strcmp(cmd, "properties") && !rest.empty())
                continue;
            std::vector<std::string> a { "unicode-query", cmd };
            a.insert(a.end(), rest.begin(), rest.end());
            auto o = run(a);
            if (o.rc != 0 || !o.out.empty())
                h::violation("nothing", show(a), "exit " + std::to_string(o.rc) + ", shown " + o.out);
        }
}
u32 text(h::Rng& r)
{
    u32 s;
    do
    {
        s = ref::gen_any_text(r, 1 + r.below(20));
        if (r.chance(1, 4))
            for (int k = int(r.below(4)); k-- > 0;)
                s.insert(r.below(uint32_t(s.size() + 1)), 1, U"\n\t\r\x1B\x07\"\\-\x7F\x80\x85\x9B\x9F\xA0\xBF"[r.below(15)]);
        if (r.chance(1, 8))
            s = U"-" + s;
        std::erase_if(s, [](char32_t c) { return !ref::scalar(c) || c == 0; });
    } while (s.empty());
    return s;
}
} // namespace

int run_harness()
{
    ref::load();
    ref::pools();
    usage();
    { // every code point, several per invocation
        auto const step = h::tier(3, 1);
        h::shard_loop(0x110000 / 16, [&](uint64_t i) {
            h::Rng r(h::g.seed, i, 1);
            if (i * 16 >= 0x30000 && (i * 16 < 0xE0000 || i * 16 >= 0xE1000) && r.below(uint32_t(64 / (4 - step))) != 0)
                return; // inert planes: a sample
            std::vector<char32_t> v;
            for (char32_t c = char32_t(i * 16); c < i * 16 + 16; ++c)
                if (step == 1 || c < 0x3400 || c >= 0xF900 || r.below(6) == 0)
                    v.push_back(c);
            if (!v.empty())
                properties(r, v);
        });
    }
    h::shard_loop(h::tier(3000, 40000), [&](uint64_t i) { // values beyond, and random argument lists
        h::Rng r(h::g.seed, i, 2);
        std::vector<char32_t> v;
        for (int k = 1 + int(r.below(5)); k-- > 0;)
            v.push_back(r.chance(1, 3) ? char32_t(0x110000 + r.below(0x7FFFFFFF)) : r.chance(1, 2) ? ref::any_scalar(r) : ref::from(r, text(r)));
        properties(r, v);
    });
    h::shard_loop(h::tier(12000, 300000), [&](uint64_t i) {
        h::Rng r(h::g.seed, i, 3);
        std::vector<u32> t;
        for (int k = 1 + int(r.below(3)); k-- > 0;)
            t.push_back(r.chance(1, 8) ? u32() : text(r));
        h::sample("texts", h::hex(t[0]));
        i % 2 ? clusters(r, t) : runs(r, t);
    });
    h::Rng lr(h::g.seed, 25, uint64_t(h::g.shard));
    ref::long_texts(lr, [&](u32 s) {
        std::erase_if(s, [](char32_t c) { return !ref::scalar(c) || c == 0; });
        if (s.size() > 3000)
            s.resize(3000);
        lr.chance(1, 2) ? clusters(lr, { s, U"a" }) : runs(lr, { s, U"a" });
    });
    h::shard_loop(h::tier(12000, 300000), [&](uint64_t i) { // any bytes: must end, with whatever answer
        h::Rng r(h::g.seed, i, 4);
        std::vector<std::string> a { "unicode-query" };
        char const* words[] = { "gc", "runs", "properties", "-e", "--", "help", "U+", "-", "U+U+41", "U+FFFFFFFFFFFFFFFFF" };
        for (int k = int(r.below(5)); k-- > 0;)
        {
            auto s = r.chance(1, 3) ? std::string(words[r.below(10)]) : mal::gen(r);
            std::erase(s, '\0');
            a.push_back(s);
        }
        run(a);
        h::count("hostile invocations");
    });
    return 0;
}

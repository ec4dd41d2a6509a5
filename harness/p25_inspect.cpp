// P25 (part): uc-inspect lists the code points, script runs and runs of a file as the library sees them.
#include "malformed.hpp"
#include <algorithm>
#include <optional>
#include <variant>
#include <libunicode/ucd_fmt.h>
#define main uc_inspect_main
#include <tools/uc-inspect.cpp>
#undef main

using ref::u32;
namespace
{
std::string file;
std::string run(std::string const& content, char const* cmd, std::string const& in)
{
    if (FILE* f = fopen(file.c_str(), "wb"))
    {
        fwrite(content.data(), 1, content.size(), f);
        fclose(f);
    }
    else
        std::exit(9);
    h::mark(cmd, content);
    char const* argv[] = { "uc-inspect", cmd, file.c_str(), nullptr };
    std::ostringstream o, e;
    auto* so = std::cout.rdbuf(o.rdbuf());
    auto* se = std::cerr.rdbuf(e.rdbuf());
    std::cout.copyfmt(std::ios(nullptr));
    int rc = uc_inspect_main(3, argv);
    std::cout.rdbuf(so);
    std::cerr.rdbuf(se);
    h::count("invocations");
    if (rc != 0 || !e.str().empty())
        h::violation("inspect/exit", in, "exit " + std::to_string(rc) + " " + e.str());
    return o.str();
}
std::string squeeze(std::string const& s) // layout is not judged, except for line breaks
{
    std::string r;
    for (char c: s)
    {
        if (c == '\t')
            c = ' ';
        if (c == ' ' && (r.empty() || r.back() == ' ' || r.back() == '\n'))
            continue;
        if (c == '\n')
            while (!r.empty() && r.back() == ' ')
                r.pop_back();
        r += c;
    }
    return r;
}
std::string esc(std::string const& bytes)
{
    std::string r;
    char b[8];
    for (char ch: bytes)
    {
        auto c = uint8_t(ch);
        switch (c)
        {
            case '\\': r += "\\\\"; break;
            case 0x1B: r += "\\033"; break;
            case '\t': r += "\\t"; break;
            case '\r': r += "\\r"; break;
            case '\n': r += "\\n"; break;
            case '"': r += "\\\""; break;
            default:
                if (c >= 0x20 && c < 0x7F)
                    r += ch;
                else
                {
                    std::snprintf(b, sizeof b, "\\x%02X", c);
                    r += b;
                }
        }
    }
    return r;
}
void compare(char const* key, u32 const& s, std::string const& got, std::string const& want)
{
    h::count("listings compared");
    if (squeeze(got) != squeeze(want))
    {
        auto a = squeeze(got), b = squeeze(want);
        size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i])
            ++i;
        auto from = i < 30 ? 0 : i - 30;
        h::violation(key, h::hex(s), "shown ..." + a.substr(std::min(from, a.size()), 120) + " want ..." + b.substr(std::min(from, b.size()), 120));
    }
}
void one(u32 const& s)
{
    auto const bytes = ref::to8(s);
    auto const in = h::hex(s);
    {
        auto const b = ref::grapheme_bounds(s);
        std::string want;
        size_t at = 0;
        for (size_t i = 0; i < s.size(); ++i)
        {
            auto const u8 = ref::to8(u32(1, s[i]));
            bool const brk = std::binary_search(b.begin(), b.end(), i);
            bool const emoji = (ref::EMO(s[i]) & ref::EMOJI) && !(ref::EMO(s[i]) & ref::ECOMP);
            want += std::format("{}: U+{:08X} [{}] [{:<10}] {} width:{} UTF8:{}\n", at, uint32_t(s[i]), emoji ? "EMOJI" : "TEXT ", unicode::script(s[i]),
                                brk ? "[breakable  ]" : "[unbreakable]", unicode::width(s[i]), esc(u8));
            at += u8.size();
        }
        compare("inspect/codepoints", s, run(bytes, h::mix(s.size()) & 1 ? "cp" : "codepoints", in), want);
    }
    {
        std::string want = "INDEX CODEPOINT TEXT WIDTH SCRIPT SCRIPT EXTS\n";
        unicode::script_segmenter seg(s);
        size_t from = 0, to = 0;
        unicode::Script sc {};
        while (seg.consume(unicode::out(to), unicode::out(sc)))
        {
            want += std::format("{}-{}: {}\n", from, to - 1, sc);
            for (size_t i = from; i < to; ++i)
            {
                std::string ext;
                if (auto e = unicode::script_extensions(s[i]))
                    for (auto x: *e)
                        ext += (ext.empty() ? "" : ", ") + std::format("{}", x);
                else
                    ext = std::format("{}", unicode::script(s[i]));
                want += std::format("{:>04}: U+{:08X}  {} ∆ {} {:<12} ({})\n", i, uint32_t(s[i]), ref::to8(u32(1, s[i])), unicode::width(s[i]), unicode::script(s[i]), ext);
            }
            from = to;
        }
        compare("inspect/scripts", s, run(bytes, "scripts", in), want);
    }
    {
        std::string want;
        unicode::run_segmenter rs(s);
        unicode::run_segmenter::range g {};
        while (rs.consume(unicode::out(g)))
        {
            want += std::format("{}-{} ({}): {} {}\n", g.start, g.end - 1, g.end - g.start, std::get<unicode::Script>(g.properties),
                                std::get<unicode::PresentationStyle>(g.properties));
            std::string t;
            for (char c: ref::to8(s.substr(g.start, g.end - g.start)))
                if (c == 0x1B)
                    t += "\\033"; // an escape of the text must never reach the terminal
                else
                    t += c;
            want += "\"\033[32m" + t + "\033[m\"\n\n";
        }
        compare("inspect/runs", s, run(bytes, "runs", in), want);
    }
    if (s.size() > 1)
        h::g.nontrivial++;
}

/// Neither a file that is not there, nor one that cannot be read, nor output that cannot be written passes for success.
struct FullDevice: std::streambuf
{
    size_t left;
    std::string got;
    explicit FullDevice(size_t n): left(n) {}
    int_type overflow(int_type c) override
    {
        if (traits_type::eq_int_type(c, traits_type::eof()))
            return traits_type::not_eof(c);
        if (!left)
            return traits_type::eof();
        --left;
        got += char(c);
        return c;
    }
};
void failing(char const* cmd, std::string const& path, size_t room)
{
    char const* argv[] = { "uc-inspect", cmd, path.c_str(), nullptr };
    FullDevice o(room);
    std::ostringstream e;
    auto* so = std::cout.rdbuf(&o);
    auto* se = std::cerr.rdbuf(e.rdbuf());
    std::cout.copyfmt(std::ios(nullptr));
    int rc = uc_inspect_main(3, argv);
    std::cout.rdbuf(so);
    std::cerr.rdbuf(se);
    std::cout.clear();
    std::cerr.clear();
    h::count("failing inputs and outputs");
    if (rc == 0 || e.str().empty())
        h::violation("inspect/failure unnoticed", std::string(cmd) + " " + path + " room " + std::to_string(room), "exit " + std::to_string(rc) + ", message '" + e.str() + "', shown " + o.got);
}
} // namespace

int run_harness()
{
    ref::load();
    ref::pools();
    file = h::g.outpath + ".input";
    if (h::g.shard == 0)
        one({});
    h::shard_loop(h::tier(6000, 100000), [&](uint64_t i) {
        h::Rng r(h::g.seed, i, 1);
        u32 s = ref::gen_any_text(r, 1 + r.below(30));
        if (r.chance(1, 3))
            for (int k = 1 + int(r.below(4)); k-- > 0;)
                s.insert(r.below(uint32_t(s.size() + 1)), 1 + r.below(3), char32_t("\n\t\r\x1B\x1B\"\\ \x7F\0"[r.below(10)]));
        std::erase_if(s, [](char32_t c) { return !ref::scalar(c); });
        h::sample("texts", h::hex(s));
        one(s);
        auto const bad = mal::gen(r);
        for (auto* cmd: { "codepoints", "scripts", "runs" })
        {
            auto const shown = run(bad, cmd, h::hex(bad));
            if (i % 8 == 0 && !shown.empty())
                failing(cmd, file, r.below(uint32_t(shown.size())));
        }
        h::count("damaged files", 3);
    });
    unlink(file.c_str());
    for (auto* cmd: { "codepoints", "cp", "scripts", "runs" })
    {
        failing(cmd, file, size_t(-1)); // gone
        failing(cmd, file + "/x", size_t(-1));
        failing(cmd, "/", size_t(-1)); // a directory
        failing(cmd, "", size_t(-1));
    }
    return 0;
}

// P27: the library can be used at any time in the life of a program, in any order of first use, with the same results.
#include "ops.hpp"
#include <sys/wait.h>
#include <thread>

extern "C" char const* __asan_default_options() { return "check_initialization_order=1:strict_init_order=1"; }

using namespace ops;
namespace
{
constexpr unsigned Texts = 120, Orders = 48;

struct Board // shared by all processes involved
{
    uint64_t early[Texts][NOps];          // from a constructor that runs before all others
    uint64_t order[Orders][Texts][NOps];  // in children of that constructor, each starting with another operation
    int status[Orders];
    uint64_t late[2][Texts][NOps];        // from a destructor that runs after all others, in a program that did not use the library before / that did
    uint64_t thread[2][Texts][NOps];      // from the destructor of a thread_local object, likewise
    uint64_t doneEarly, doneLate[2], doneThread[2], doneOrder[Orders];
    int statusEarly;
};
Board* board = nullptr;

/// A text that does not take any table to make (nothing is loaded yet when the first texts are needed).
Text make(uint64_t seed, unsigned k)
{
    static constexpr char32_t bases[] = { 'a',    'A',    ' ',    '0',     0xC0,    0x300,   0x345,   0x391,   0x3A3,   0x5D0,   0x627,   0x64B,   0x915,   0x94D,   0x93F,   0x1100, 0x1161,
                                          0x11A8, 0xAC00, 0x200D, 0x2014,  0x2764,  0xFE0F,  0xFE0E,  0x3042,  0x30AB,  0x3099,  0x4E00,  0xF73,   0xFB01,  0xFDFA,  0x1E9E,  0x1F1E6, 0x1F468,
                                          0x1F3FB, 0x1F600, 0xE0100, 0xE0062, 0x10000, 0x1D15E, 0x2F800, 0x10FFFF, 0xE000, 0x378, 0x1B, '\'', '.', '\r', '\n', 0x85 };
    h::Rng r(seed, k, 27);
    Text x;
    for (unsigned i = 0, n = 1 + r.below(24); i < n; ++i)
    {
        auto c = r.chance(1, 6) ? char32_t(r.next() >> (43 + r.below(14))) : r.pick(bases) + (r.chance(1, 2) ? r.below(16) : 0);
        if (c < 0x110000 && (c < 0xD800 || c > 0xDFFF))
            x.t += c;
    }
    for (auto c: x.t)
    {
        ref::put8(c, x.b);
        if (c < 0x10000)
            x.w += char16_t(c);
        else
        {
            x.w += char16_t(0xD7C0 + (c >> 10));
            x.w += char16_t(0xDC00 + (c & 0x3FF));
        }
    }
    x.damaged = x.b;
    for (unsigned i = 0; i < 3 && !x.damaged.empty(); ++i)
        if (r.chance(1, 2))
            x.damaged[r.below(uint32_t(x.damaged.size()))] = char(r.below(256));
        else
            x.damaged.erase(r.below(uint32_t(x.damaged.size())), 1);
    return x;
}

struct Args
{
    uint64_t seed = 1, shard = 0;
};
Args args() // main() has not been called yet
{
    Args a;
    if (FILE* f = fopen("/proc/self/cmdline", "r"))
    {
        char buf[4096];
        auto n = fread(buf, 1, sizeof buf - 1, f);
        buf[n] = 0;
        fclose(f);
        char const *key = buf, *end = buf + n;
        while (key < end)
        {
            char const* value = key + std::strlen(key) + 1;
            if (value < end && !std::strcmp(key, "--seed"))
                a.seed = strtoull(value, nullptr, 10);
            if (value < end && !std::strcmp(key, "--shard"))
                a.shard = strtoull(value, nullptr, 10);
            key = value;
        }
    }
    return a;
}
uint64_t textSeed()
{
    auto a = args();
    return a.seed * 1000 + a.shard;
}

void all(uint64_t seed, uint64_t (*into)[NOps], uint64_t order = 0)
{
    for (unsigned k = 0; k < Texts; ++k)
    {
        auto x = make(seed, k);
        for (unsigned i = 0; i < NOps; ++i)
        {
            auto o = order ? (order * 5 + i * (1 + order % (NOps - 1))) % NOps : i;
            into[k][o] = table[o].op(x);
        }
        if (order)
            for (unsigned o = 0; o < NOps; ++o) // those a step that is no generator left out
                into[k][o] = into[k][o] ? into[k][o] : table[o].op(x);
    }
}

struct Early
{
    Early()
    {
        board = static_cast<Board*>(mmap(nullptr, sizeof(Board), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        if (board == MAP_FAILED)
            _exit(9);
        // In children only: this process itself uses the library in main() first, so that whatever the library
        // constructs at its first use is destroyed before this object is.
        auto const seed = textSeed();
        for (unsigned i = 0; i <= Orders; ++i)
        {
            auto pid = fork();
            if (pid < 0)
                _exit(9);
            if (pid == 0)
            {
                all(seed, i < Orders ? board->order[i] : board->early, i < Orders ? i + 1 : 0);
                (i < Orders ? board->doneOrder[i] : board->doneEarly) = 1;
                _exit(0);
            }
            while (waitpid(pid, i < Orders ? &board->status[i] : &board->statusEarly, 0) < 0) {}
        }
    }
    ~Early() // the first to be constructed is the last to be destroyed
    {
        if (!late)
            return;
        all(textSeed(), board->late[used]);
        board->doneLate[used] = 1;
        _exit(0);
    }
    bool late = false, used = false;
};
__attribute__((init_priority(101))) Early early;

struct AtThreadEnd
{
    bool on = false, used = false;
    ~AtThreadEnd()
    {
        if (!on)
            return;
        all(textSeed(), board->thread[used]);
        board->doneThread[used] = 1;
    }
};
thread_local AtThreadEnd atThreadEnd;

void compare(char const* when, Text const* texts, uint64_t const (*got)[NOps], uint64_t const (*want)[NOps])
{
    for (unsigned k = 0; k < Texts; ++k)
        for (unsigned o = 0; o < NOps; ++o)
        {
            h::count("results compared");
            if (got[k][o] != want[k][o])
                h::violation(std::string("result/") + table[o].name, h::hex(texts[k].t), std::string(when) + ": another result than in main()");
        }
}

int child(void (*f)())
{
    std::fflush(nullptr);
    auto pid = fork();
    if (pid < 0)
        std::exit(9);
    if (pid == 0)
        f();
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    return st;
}
} // namespace

int run_harness()
{
    auto const seed = textSeed();
    static Text texts[Texts];
    static uint64_t want[Texts][NOps];
    int lateStatus[2], threadStatus[2];
    auto const ends = [&](bool used) {
        early.used = used;
        h::mark("life", std::string("at the end of the program"));
        lateStatus[used] = child([] {
            early.late = true;
            std::exit(0);
        });
        h::mark("life", std::string("at the end of a thread"));
        static bool use;
        use = used;
        threadStatus[used] = child([] {
            std::thread([] {
                atThreadEnd.on = true; // constructed before anything the library may keep per thread
                atThreadEnd.used = use;
                if (use)
                {
                    static uint64_t scratch[Texts][NOps];
                    all(textSeed(), scratch);
                }
            }).join();
            _exit(0);
        });
    };
    ends(false);
    h::mark("life", std::string("in main()"));
    for (unsigned k = 0; k < Texts; ++k)
    {
        texts[k] = make(seed, k);
        h::seen("texts", h::hash_str(texts[k].t));
    }
    all(seed, want);
    for (unsigned k = 0; k < Texts; ++k)
        for (unsigned o = 0; o < NOps; ++o)
        {
            h::seen("results", want[k][o]);
            h::g.sh->cases = h::g.sh->cases + 1;
            h::g.nontrivial++;
        }
    if (board->statusEarly || !board->doneEarly)
        h::violation("life/early", "", "the constructor ended with status " + std::to_string(board->statusEarly));
    else
        compare("from a static constructor", texts, board->early, want);
    for (unsigned i = 0; i < Orders; ++i)
    {
        h::count("orders of first use");
        if (board->status[i] || !board->doneOrder[i])
            h::violation("life/order", std::to_string(i), "ended with status " + std::to_string(board->status[i]) + ", starting with " + table[((i + 1) * 5) % NOps].name);
        else
            compare(("from a static constructor, in order " + std::to_string(i)).c_str(), texts, board->order[i], want);
    }
    ends(true);
    for (unsigned used = 0; used < 2; ++used)
    {
        auto const tag = std::string(used ? "" : ", the first use");
        if (lateStatus[used] || !board->doneLate[used])
            h::violation("life/late", "", "the destructor of a static object ended with status " + std::to_string(lateStatus[used]) + tag);
        else
            compare(("from a static destructor" + tag).c_str(), texts, board->late[used], want);
        if (threadStatus[used] || !board->doneThread[used])
            h::violation("life/thread", "", "the end of a thread ended with status " + std::to_string(threadStatus[used]) + tag);
        else
            compare(("from the end of a thread" + tag).c_str(), texts, board->thread[used], want);
        h::count("ends of the program and of threads", 2);
    }
    h::sample("texts", h::hex(texts[0].t));
    return 0;
}

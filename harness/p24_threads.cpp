// P24: any number of threads may use the library at once: no data race, and every thread gets the single-threaded results.
#include "ops.hpp"
#include <sys/wait.h>
#include <thread>

using namespace ops;
namespace
{
/// What one thread did, as it did it; written by that thread only, read after it has been joined.
struct Slot
{
    uint64_t digest;
    uint32_t op, text;
};
struct Board // shared with the process that runs the threads
{
    std::atomic<uint64_t> overlapping;
    uint64_t used[16];
    Slot slots[16][1600];
};

constexpr unsigned MaxThreads = 16;

/// Start `threads` threads at once; thread t performs `rounds` operations in an order of its own.
void run_threads(std::vector<Text> const& texts, Board& board, unsigned threads, unsigned rounds, uint64_t seed, int mode)
{
    std::atomic<unsigned> waiting { 0 }, active { 0 };
    std::vector<std::thread> v;
    auto body = [&](unsigned t) {
        h::Rng r(seed, t, 3);
        waiting.fetch_add(1);
        while (waiting.load(std::memory_order_relaxed) < threads)
            std::this_thread::yield();
        uint64_t overlaps = 0;
        for (unsigned i = 0; i < rounds; ++i)
        {
            // mode 0: everything at random; 1: all threads the same operation at a time, so that first uses collide; 2: two operations against each other
            auto k = mode == 1 ? unsigned((h::mix(seed) + i) % NOps) : mode == 2 ? unsigned((h::mix(seed + i / 16) + (t & 1) * (1 + seed % 7)) % NOps) : r.below(uint32_t(NOps));
            auto x = mode == 1 && r.chance(1, 2) ? i % uint32_t(texts.size()) : r.below(uint32_t(texts.size()));
            if (active.fetch_add(1, std::memory_order_relaxed) > 0)
                ++overlaps;
            auto d = table[k].op(texts[x]);
            active.fetch_sub(1, std::memory_order_relaxed);
            board.slots[t][board.used[t]++] = { d, uint32_t(k), uint32_t(x) };
            if (r.chance(1, 20))
                std::this_thread::yield();
        }
        board.overlapping.fetch_add(overlaps, std::memory_order_relaxed);
    };
    for (unsigned t = 0; t < threads; ++t)
        v.emplace_back(body, t);
    for (auto& t: v)
        t.join();
}
} // namespace

int run_harness()
{
    ref::load();
    ref::pools();
    auto* board = static_cast<Board*>(mmap(nullptr, sizeof(Board), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (board == MAP_FAILED)
        return 9;
    struct Round
    {
        std::vector<Text> texts;
        std::vector<Slot> slots;
    };
    auto const report = h::g.outpath + ".report";
    std::vector<Round> rounds; // judged at the end, so that the process itself has not used the library before it forks
    h::shard_loop(h::tier(2400, 60000), [&](uint64_t i) {
        h::Rng r(h::g.seed, i, 1);
        Round round;
        auto n = 1 + r.below(6);
        for (unsigned k = 0; k < n; ++k)
        {
            Text x;
            auto s = ref::gen_any_text(r, 1 + r.below(30));
            std::erase_if(s, [](char32_t c) { return !ref::scalar(c); });
            if (r.chance(1, 3))
                s += u32(r.below(100), U'a') + s;
            x.t = s;
            x.b = ref::to8(s);
            x.w = ref::to16(s);
            x.damaged = mal::gen(r);
            round.texts.push_back(x);
        }
        unsigned threads = 2 + r.below(7);
        unsigned per = 30 + r.below(60);
        int mode = int(r.below(3));
        auto seed = h::mix(h::g.seed * 1000003 + i);
        std::string desc = "round " + std::to_string(i) + " seed " + std::to_string(h::g.seed) + " threads " + std::to_string(threads) + " mode " + std::to_string(mode);
        h::mark("threads", desc);
        std::memset(static_cast<void*>(board), 0, sizeof *board);
        std::fflush(nullptr);
        auto pid = fork();
        if (pid < 0)
            std::exit(9);
        if (pid == 0)
        {
            if (int fd = open(report.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); fd >= 0)
                dup2(fd, 2);
            run_threads(round.texts, *board, threads, per, seed, mode);
            std::fflush(stderr);
            _exit(0);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0) {}
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
        {
            std::string text(3000, 0);
            if (FILE* f = fopen(report.c_str(), "r"))
            {
                text.resize(fread(text.data(), 1, text.size(), f));
                fclose(f);
            }
            h::violation(text.find("data race") != text.npos ? "data-race" : "crash:threads", desc, "the threads' process ended with status " + std::to_string(st) + "\n" + text);
            return;
        }
        h::count("rounds");
        h::count("operations overlapping others", board->overlapping.load());
        if (board->overlapping.load())
            h::g.nontrivial++;
        for (unsigned t = 0; t < MaxThreads; ++t)
            for (size_t k = 0; k < board->used[t]; ++k)
                round.slots.push_back(board->slots[t][k]);
        rounds.push_back(std::move(round));
        h::sample("rounds", desc + " operations " + std::to_string(rounds.back().slots.size()));
    });
    for (auto& round: rounds)
    {
        std::map<std::pair<uint32_t, uint32_t>, uint64_t> want;
        for (auto& s: round.slots)
        {
            auto [it, fresh] = want.try_emplace({ s.op, s.text });
            if (fresh)
                it->second = table[s.op].op(round.texts[s.text]);
            h::count("results compared");
            h::seen("operation and text", h::mix(it->second ^ s.op));
            if (it->second != s.digest)
                h::violation(std::string("result/") + table[s.op].name, h::hex(round.texts[s.text].t), "differs from the single-threaded result");
        }
    }
    return 0;
}

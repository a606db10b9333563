// ThreadPool monitors.  Every task writes a timestamped start and end event; the checkers read the
// recorded log (exactly-once, completion before return, order, overlap, pause) after the run.
#include "vh.hpp"
#include "ufjfmltk/core/ThreadPool.hpp"
#include <atomic>
#include <condition_variable>
#include <future>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <thread>
using mltk::ThreadPool;

static std::atomic<uint64_t> clk{1};
struct Ev {
    std::atomic<uint64_t> start{0}, end{0};
    std::atomic<int> runs{0};
    std::atomic<long> arg{-1};
};
static void pause_us(int us) {
    if (us <= 0) return;
    if (us < 8) { for (volatile int k = 0; k < us * 60; k++) {} return; }
    std::this_thread::sleep_for(std::chrono::microseconds(us));
}
struct Log {
    std::vector<std::unique_ptr<Ev>> ev;
    std::vector<int> delay;
    std::atomic<int> live{0}, peak{0};
    Log(size_t n, vh::Rng &g, int style) {
        for (size_t k = 0; k < n; k++) {
            ev.emplace_back(new Ev);
            delay.push_back(style == 0 ? 0 : style == 1 ? (int)g.below(6) : style == 2 ? (g.chance(0.1) ? (int)g.i(50, 800) : 0) : (int)g.i(0, 120));
        }
    }
    void run(size_t k) {
        ev[k]->start = clk++;
        int l = ++live, p = peak;
        while (l > p && !peak.compare_exchange_weak(p, l)) {}
        ev[k]->runs++;
        pause_us(delay[k]);
        live--;
        ev[k]->end = clk++;
    }
    std::string shape() const {      // the observed interleaving: order in which tasks started
        std::vector<std::pair<uint64_t, size_t>> o;
        for (size_t k = 0; k < ev.size(); k++) { o.push_back({ev[k]->start.load(), 2 * k}); o.push_back({ev[k]->end.load(), 2 * k + 1}); }
        std::sort(o.begin(), o.end());
        std::string s;
        for (auto &x : o) s += std::to_string(x.second) + ",";
        return s;
    }
    void once(const char *key, const std::string &where) const {
        for (size_t k = 0; k < ev.size(); k++) {
            VCHECK(std::string(key) + ":exactly-once", ev[k]->runs == 1, where, ": task ", k, " of ", ev.size(), " ran ", ev[k]->runs.load(), " times");
            VCHECK(std::string(key) + ":finished", ev[k]->end != 0, where, ": task ", k, " of ", ev.size(), " had not finished");
        }
    }
};
static void tune(ThreadPool &p, vh::Rng &g) {
    switch (g.below(4)) {
        case 0: p.sleep_duration = 0; break;
        case 1: p.sleep_duration = 1; break;
        case 2: p.sleep_duration = (unsigned)g.i(2, 300); break;
        default: break;
    }
}

// Exceptions cross threads through libstdc++'s uninstrumented exception_ptr counts, which the race
// detector cannot follow: throwing tasks run in the other builds only.
#ifdef __SANITIZE_THREAD__
static const unsigned kinds = 6;
#else
static const unsigned kinds = 7;
#endif
// Tasks pushed by several producers in every way, some pushing tasks of their own.
WORKLOAD(exactly_once, 1600, 60000) {
    unsigned threads = (unsigned)rng.i(1, 8), producers = (unsigned)rng.i(1, 5);
    size_t n = rng.chance(0.2) ? (size_t)rng.i(150, 400) : (size_t)rng.i(1, 60);
    size_t rounds = rng.chance(0.3) ? 3 : 1;
    int style = (int)rng.below(4);
    uint64_t pseed = rng.u64();
    ThreadPool pool(threads);
    tune(pool, rng);
    VCHECK("pool:thread-count", pool.get_thread_count() == threads, "get_thread_count() is ", pool.get_thread_count(), " for ", threads);
    for (size_t r = 0; r < rounds; r++) {
        Log log(2 * n, rng, style);      // task n+k is pushed by task k
        std::vector<char> nested(n), kind(n);
        for (size_t k = 0; k < n; k++) { nested[k] = rng.chance(0.3); kind[k] = (char)rng.below(kinds); }
        std::vector<std::future<bool>> fb(n);
        std::vector<std::future<long>> fl(n);
        std::vector<std::future<std::string>> fs(n);
        auto body = [&log, &nested, &pool, n](size_t k) {
            if (nested[k]) pool.push_task([&log, k, n] { log.run(n + k); });
            log.run(k);
        };
        std::vector<std::thread> pr;
        for (unsigned p = 0; p < producers; p++)
            pr.emplace_back([&, p] {
                vh::Rng g(pseed + p * 77 + r);
                for (size_t k = p; k < n; k += producers) {
                    if (style && g.chance(0.2)) pause_us((int)g.below(60));
                    switch (kind[k]) {
                        case 0: pool.push_task([&body, k] { body(k); }); break;
                        case 1: pool.push_task([&body](size_t q) { body(q); }, k); break;
                        case 2: pool.push_task([&body, &log](size_t q, long a, const std::string &s) { log.ev[q]->arg = a + (long)s.size(); body(q); }, k, (long)k * 3, std::string(k % 9, 'x')); break;
                        case 3: fb[k] = pool.submit([&body](size_t q) { body(q); }, k); break;
                        case 4: fl[k] = pool.submit([&body](size_t q, long b) -> long { body(q); return (long)q * 7 + b; }, k, 11L); break;
                        case 5: fs[k] = pool.submit([&body](size_t q) -> std::string { body(q); return "v" + std::to_string(q); }, k); break;
                        default:
                            if (k % 2) fb[k] = pool.submit([&body](size_t q) { body(q); throw std::runtime_error("e" + std::to_string(q)); }, k);
                            else fl[k] = pool.submit([&body](size_t q) -> long { body(q); throw std::out_of_range("e" + std::to_string(q)); }, k);
                    }
                }
            });
        for (auto &t : pr) t.join();
        bool futures_first = rng.chance(0.5);
        auto futures = [&] {
            for (size_t k = 0; k < n; k++) {
                if (fb[k].valid() && kind[k] == 3) {
                    VCHECK("pool:future-value", fb[k].get() == true, "future of void task ", k, " is false");
                    VCHECK("pool:future-early", log.ev[k]->end != 0, "future of task ", k, " was ready before the task finished");
                    vh::count("futures");
                } else if (fl[k].valid() && kind[k] == 4) {
                    long v = fl[k].get();
                    VCHECK("pool:future-value", v == (long)k * 7 + 11, "future of task ", k, " is ", v, " instead of ", (long)k * 7 + 11);
                    VCHECK("pool:future-early", log.ev[k]->end != 0, "future of task ", k, " was ready before the task finished");
                    vh::count("futures");
                } else if (fs[k].valid()) {
                    std::string v = fs[k].get();
                    VCHECK("pool:future-value", v == "v" + std::to_string(k), "future of task ", k, " is ", v);
                    vh::count("futures");
                } else if (kind[k] == 6) {
                    std::string what;
                    try { if (k % 2) fb[k].get(); else fl[k].get(); } catch (const std::exception &e) { what = e.what(); }
                    VCHECK("pool:future-exception", what == "e" + std::to_string(k), "task ", k, " threw e", k, " but its future gave '", what, "'");
                    vh::count("exceptions delivered");
                }
            }
        };
        if (futures_first) futures();
        pool.wait_for_tasks();
        for (size_t k = 0; k < n; k++) if (!nested[k]) log.ev[n + k]->runs = 1, log.ev[n + k]->end = 1;   // never pushed
        log.once("pool", vh::cat("after wait_for_tasks (", threads, " threads, ", producers, " producers)"));
        for (size_t k = 0; k < n; k++)
            if (kind[k] == 2) VCHECK("pool:arguments", log.ev[k]->arg == (long)k * 3 + (long)(k % 9), "task ", k, " received ", log.ev[k]->arg.load());
        VCHECK("pool:idle-total", pool.get_tasks_total() == 0 && pool.get_tasks_queued() == 0 && pool.get_tasks_running() == 0,
               "idle pool reports total ", pool.get_tasks_total(), " queued ", pool.get_tasks_queued(), " running ", pool.get_tasks_running());
        VCHECK("pool:overlap", (unsigned)log.peak <= threads, log.peak.load(), " tasks ran at once on ", threads, " threads");
        if (!futures_first) futures();
        vh::count("tasks", n);
        vh::count("tasks overlapping", log.peak > 1 ? 1 : 0);
        vh::nontrivial(log.shape());
        if (r == 0) vh::sample(vh::cat(threads, " threads, ", producers, " producers, ", n, " tasks, peak overlap ", log.peak.load()));
    }
}

// The destructor runs everything that was pushed, then stops.
WORKLOAD(destructor_drains, 800, 20000) {
    unsigned threads = (unsigned)rng.i(1, 6);
    size_t n = (size_t)rng.i(0, 80);
    Log log(n, rng, (int)rng.below(4));
    {
        ThreadPool pool(threads);
        tune(pool, rng);
        for (size_t k = 0; k < n; k++) pool.push_task([&log, k] { log.run(k); });
    }
    log.once("pool-destructor", vh::cat("after destroying a pool of ", threads, " threads"));
    uint64_t t = clk++;
    for (auto &e : log.ev) VCHECK("pool-destructor:late", e->end < t, "a task ended after the pool was destroyed");
    vh::count("pools destroyed");
    vh::nontrivial(log.shape());
}

// One thread: tasks run in the order they were pushed.
WORKLOAD(fifo, 600, 20000) {
    size_t n = (size_t)rng.i(2, 120);
    Log log(n, rng, (int)rng.below(3));
    ThreadPool pool(1);
    tune(pool, rng);
    for (size_t k = 0; k < n; k++) pool.push_task([&log, k] { log.run(k); });
    pool.wait_for_tasks();
    log.once("pool-fifo", "one thread");
    for (size_t k = 1; k < n; k++)
        VCHECK("pool-fifo:order", log.ev[k - 1]->end < log.ev[k]->start, "task ", k, " started before task ", k - 1, " ended on one thread");
    vh::count("fifo tasks", n);
    vh::nontrivial(vh::cat(n, ":", vh::show(log.delay, 200)));
}

// All threads are usable: as many tasks as threads can be running at one time.
WORKLOAD(all_threads_work, 200, 5000) {
    unsigned threads = (unsigned)rng.i(1, 8);
    ThreadPool pool(rng.chance(0.5) ? threads : 2);
    tune(pool, rng);
    if (pool.get_thread_count() != threads) pool.reset(threads);
    VCHECK("pool:reset-count", pool.get_thread_count() == threads, "get_thread_count() is ", pool.get_thread_count(), " after reset(", threads, ")");
    std::atomic<unsigned> in{0};
    std::atomic<bool> go{false};
    for (unsigned k = 0; k < threads; k++)
        pool.push_task([&] { in++; while (!go) std::this_thread::sleep_for(std::chrono::microseconds(50)); });
    auto t0 = std::chrono::steady_clock::now();
    while (in < threads && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(30)) std::this_thread::sleep_for(std::chrono::microseconds(50));
    unsigned got = in;
    auto running = pool.get_tasks_running(), total = pool.get_tasks_total();
    auto queued = pool.get_tasks_queued();
    go = true;
    pool.wait_for_tasks();
    VCHECK("pool:all-threads", got == threads, "only ", got, " of ", threads, " threads took a task");
    VCHECK("pool:running-count", running == threads && total == threads && queued == 0, threads, " tasks run on ", threads, " threads but the pool reports running ", running, " total ", total, " queued ", queued);
    vh::count("full pools");
    vh::nontrivial(vh::cat(threads));
}

// Paused: nothing starts; resumed: everything runs, once.
WORKLOAD(pause_resume, 1500, 60000) {
    unsigned threads = (unsigned)rng.i(1, 6);
    size_t a = (size_t)rng.i(0, 40), b = (size_t)rng.i(1, 40);
    Log log(a + b, rng, (int)rng.below(4));
    ThreadPool pool(threads);
    tune(pool, rng);
    for (size_t k = 0; k < a; k++) pool.push_task([&log, k] { log.run(k); });
    if (rng.chance(0.5)) pause_us((int)rng.below(300));
    pool.paused = true;
    std::thread late;
    bool concurrent = rng.chance(0.5);
    auto push_b = [&] { for (size_t k = a; k < a + b; k++) pool.push_task([&log, k] { log.run(k); }); };
    if (concurrent) late = std::thread(push_b); else if (rng.chance(0.5)) push_b(); else { pool.wait_for_tasks(); push_b(); }
    pool.wait_for_tasks();
    uint64_t t = clk++;
    size_t running = 0;
    std::vector<char> done(a + b, 0);
    for (size_t k = 0; k < a + b; k++) {
        uint64_t s = log.ev[k]->start, e = log.ev[k]->end;
        if (s && s < t && !(e && e < t)) running++;
        done[k] = e && e < t;
    }
    if (late.joinable()) late.join();
    pause_us(rng.chance(0.5) ? 0 : (int)rng.i(100, 2500));
    size_t started = 0;
    for (size_t k = 0; k < a + b; k++) if (log.ev[k]->start > t) started++;
    size_t finished = 0;
    for (char c : done) finished += c;
    auto queued = pool.get_tasks_queued(), total = (decltype(pool.get_tasks_queued()))pool.get_tasks_total();
    bool by_reset = rng.chance(0.3);
    unsigned nt = threads;
    if (by_reset) {
        nt = (unsigned)rng.i(1, 6);
        pool.reset(nt);
        VCHECK("pool-pause:reset-unpaused", pool.paused, "reset of a paused pool left it running");
        size_t s2 = 0;
        for (size_t k = 0; k < a + b; k++) if (log.ev[k]->start > t) s2++;
        started += s2;
        vh::count("paused pools reset");
    }
    pool.paused = false;
    pool.wait_for_tasks();
    VCHECK("pool-pause:wait-returned-early", running == 0, running, " tasks were running when wait_for_tasks returned on a paused pool");
    VCHECK("pool-pause:started-while-paused", started == 0, started, " tasks started on a paused pool after wait_for_tasks returned");
    VCHECK("pool-pause:queue-count", queued == total && queued == a + b - finished, "paused pool reports ", queued, " queued of ", total, " with ", finished, " of ", a + b, " tasks finished");
    log.once("pool-pause", vh::cat("after resuming ", nt, " threads"));
    vh::count("pauses");
    vh::count("tasks held back", a + b - finished);
    vh::nontrivial(log.shape());
}

// reset at any point keeps every task.
WORKLOAD(reset_keeps_tasks, 800, 20000) {
    size_t n = (size_t)rng.i(1, 120);
    Log log(n, rng, (int)rng.below(4));
    unsigned threads = (unsigned)rng.i(1, 6);
    ThreadPool pool(threads);
    tune(pool, rng);
    size_t k = 0, resets = (size_t)rng.i(1, 3);
    for (size_t r = 0; r < resets; r++) {
        size_t upto = k + rng.below(n - k + 1);
        for (; k < upto; k++) pool.push_task([&log, k] { log.run(k); });
        threads = (unsigned)rng.i(1, 6);
        pool.reset(threads);
        VCHECK("pool-reset:count", pool.get_thread_count() == threads, "get_thread_count() is ", pool.get_thread_count(), " after reset(", threads, ")");
        VCHECK("pool-reset:paused", !pool.paused, "reset left the pool paused");
    }
    for (; k < n; k++) pool.push_task([&log, k] { log.run(k); });
    pool.wait_for_tasks();
    log.once("pool-reset", vh::cat("after ", resets, " resets"));
    vh::count("resets", resets);
    vh::nontrivial(log.shape());
}

template <class T1, class T2> static void loop_case(vh::Rng &rng, ThreadPool &pool, T1 first, T2 last, unsigned blocks, unsigned threads, int style) {
    typedef std::common_type_t<T1, T2> T;
    T lo = std::min((T)first, (T)last), hi = std::max((T)first, (T)last);
    size_t n = (size_t)(hi - lo);
    std::vector<std::atomic<int>> hits(n ? n : 1);
    std::atomic<int> outside{0}, nblocks{0}, empty{0}, done{0};
    auto loop = [&](T a, T b) {
        nblocks++;
        if (!(a < b)) empty++;
        for (T k = a; k < b; k++) {
            if (k < lo || k >= hi) { outside++; continue; }
            hits[(size_t)(k - lo)]++;
        }
        if (style) pause_us(style == 1 ? (int)((uint64_t)a % 7) : (int)((uint64_t)(a * 37) % 300));
        done++;
    };
    pool.parallelize_loop(first, last, loop, blocks);
    std::string w = vh::cat("parallelize_loop(", +first, ", ", +last, ", ", blocks, ") on ", threads, " threads");
    int d = done, nb = nblocks;
    for (size_t k = 0; k < n; k++) VCHECK("pool-loop:coverage", hits[k] == 1, w, ": index ", (long long)lo + (long long)k, " visited ", hits[k].load(), " times");
    VCHECK("pool-loop:outside", outside == 0, w, ": ", outside.load(), " indices outside the range");
    VCHECK("pool-loop:empty-block", empty == 0, w, ": ", empty.load(), " empty blocks");
    VCHECK("pool-loop:returned-early", d == nb, w, ": returned with ", nb - d, " blocks unfinished");
    unsigned most = blocks ? blocks : threads;
    VCHECK("pool-loop:blocks", (unsigned)nb <= most && (n == 0) == (nb == 0), w, ": ", nb, " blocks for ", n, " indices, at most ", most);
    vh::count("loops");
    vh::count("loop indices", n);
    vh::nontrivial(vh::cat(+first, " ", +last, " ", blocks, " ", threads));
}
WORKLOAD(loop_coverage, 1500, 60000) {
    unsigned threads = (unsigned)rng.i(1, 8);
    ThreadPool pool(threads);
    pool.sleep_duration = rng.chance(0.5) ? 0 : (unsigned)rng.i(1, 200);
    Log other(rng.chance(0.3) ? 20 : 0, rng, 3);
    for (size_t k = 0; k < other.ev.size(); k++) pool.push_task([&other, k] { other.run(k); });
    for (int q = 0; q < 4; q++) {
        unsigned blocks = rng.chance(0.4) ? 0 : (unsigned)rng.i(1, 20);
        int style = (int)rng.below(3);
        long a = rng.i(-60, 60), b = rng.chance(0.1) ? a : rng.chance(0.2) ? a + 1 : rng.i(-60, 200);
        switch (rng.below(5)) {
            case 0: loop_case<int, int>(rng, pool, (int)a, (int)b, blocks, threads, style); break;
            case 1: loop_case<size_t, size_t>(rng, pool, (size_t)std::labs(a), (size_t)std::labs(b), blocks, threads, style); break;
            case 2: loop_case<int, long>(rng, pool, (int)a, b, blocks, threads, style); break;
            case 3: loop_case<int, size_t>(rng, pool, 0, (size_t)std::labs(b), blocks, threads, style); break;
            default: loop_case<short, int>(rng, pool, (short)a, (int)b, blocks, threads, style); break;
        }
    }
    // several loops from several threads at once
    if (rng.chance(0.3)) {
        std::vector<std::vector<std::atomic<int>>> hits;
        for (int t = 0; t < 3; t++) hits.emplace_back(std::vector<std::atomic<int>>((size_t)rng.i(1, 60)));
        std::vector<std::thread> th;
        std::atomic<int> bad{0};
        for (int t = 0; t < 3; t++)
            th.emplace_back([&, t] {
                pool.parallelize_loop(size_t(0), hits[t].size(), [&](size_t a, size_t b) { for (size_t k = a; k < b; k++) { pause_us(2); hits[t][k]++; } });
                for (auto &h : hits[t]) if (h != 1) bad++;
            });
        for (auto &t : th) t.join();
        VCHECK("pool-loop:concurrent", bad == 0, bad.load(), " indices of concurrent loops not visited exactly once when their loop returned");
        vh::count("concurrent loops", 3);
    }
    pool.wait_for_tasks();
    other.once("pool-loop", "tasks queued beside a loop");
}

// Whole lines never mix.
WORKLOAD(synced_lines, 200, 5000) {
    std::ostringstream out;
    mltk::synced_stream ss(out);
    unsigned threads = (unsigned)rng.i(2, 6);
    size_t n = (size_t)rng.i(5, 60);
    {
        ThreadPool pool(threads);
        pool.sleep_duration = 0;
        for (size_t k = 0; k < n; k++)
            pool.push_task([&ss, k] { if (k % 3) ss.println("<", k, "|", k * 2.5, "|", std::string(k % 11, 'z'), ">"); else ss.print("<", k, "|", k * 2.5, "|", std::string(k % 11, 'z'), ">\n"); });
    }
    std::istringstream in(out.str());
    std::string line;
    std::set<std::string> want, got;
    for (size_t k = 0; k < n; k++) { std::ostringstream o; o << "<" << k << "|" << k * 2.5 << "|" << std::string(k % 11, 'z') << ">"; want.insert(o.str()); }
    size_t lines = 0;
    while (std::getline(in, line)) { lines++; got.insert(line); }
    VCHECK("pool:synced-stream", lines == n && got == want, "printing ", n, " lines from ", threads, " threads gave ", lines, " lines, ", got.size(), " distinct");
    vh::count("synced lines", n);
    vh::nontrivial(out.str());
}
VH_MAIN

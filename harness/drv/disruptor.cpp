// Histories of the ring buffer, its sequencers, barriers, wait strategies and event processors under a
// controlled scheduler (C01-C06).
#include "hist.h"
#include <algorithm>
#include <atomic>
#include <functional>
#include <memory>
#include <klepsydra/high_performance/disruptor4cpp/disruptor4cpp.h>
using namespace disruptor4cpp;
using ksim::rnd;

struct Ev
{
    int64_t id = 0;
    int64_t tag = 0;
    Ev() = default;
};

static int64_t g_base = -1;
static long off(int64_t s)
{
    int64_t d = s - g_base;
    if (d > 1000000 || d < -1000000)
        return 999999;
    return (long) d;
}
static const int64_t BASES[] = {-1, -1, -1, (1ll << 31) - 6, (1ll << 32) - 5, (1ll << 31) + 77,
                                (1ll << 33) - 4, (1ll << 40) + 3, (1ll << 62) + 1};

struct Cfg
{
    int n = 0, multi = 0, k = 0, tmo = 0, startThrow = 0, stopThrow = 0, noop = 0;
    std::vector<long> manual;            // per consumer: driven by hand
    std::vector<std::vector<long>> deps; // per consumer, 1-based upstream consumers
    std::vector<long> gating;            // 1-based consumers gating the producers
    void emit()
    {
        std::string d = "[";
        for (size_t i = 0; i < deps.size(); i++)
            d += (i ? "," : "") + hist::arr(deps[i]);
        d += "]";
        hist::cfg("\"n\":" + std::to_string(n) + ",\"multi\":" + std::to_string(multi)
                  + ",\"k\":" + std::to_string(k) + ",\"manual\":" + hist::arr(manual) + ",\"deps\":" + d
                  + ",\"gating\":" + hist::arr(gating) + ",\"tmo\":" + std::to_string(tmo)
                  + ",\"startThrow\":" + std::to_string(startThrow) + ",\"stopThrow\":"
                  + std::to_string(stopThrow) + ",\"noop\":" + std::to_string(noop) + ",\"weak\":" + (ksim::weak() ? "1" : "0"));
    }
};

template<class RB> struct Producer
{
    RB &rb;
    int pid;
    long next = 0;
    // returns the claimed range, hi < lo if none
    std::pair<int64_t, int64_t> claim(int kind, int n)
    {
        int64_t hi = 0;
        bool ok = false;
        const char *o = kind == 0 ? "next" : "try";
        hist::call(o, {n});
        try {
            if (kind == 0)
                hi = n == 1 && rnd(2) ? rb.next() : rb.next(n);
            else
                hi = n == 1 && rnd(2) ? rb.try_next() : rb.try_next(n);
            ok = true;
        } catch (insufficient_capacity_exception &) {
            hist::ret({}, "full");
        } catch (std::invalid_argument &) {
            hist::ret({}, "inval");
        } catch (std::exception &) {
            hist::ret({}, "other");
        }
        if (!ok)
            return {1, 0};
        hist::ret({off(hi)});
        return {hi - n + 1, hi};
    }
    long write(int64_t lo, int64_t hi)
    {
        long id0 = pid * 1000 + next + 1;
        for (int64_t s = lo; s <= hi; s++) {
            ++next;
            ksim::payloadWrite(&rb[s].id, id0 + (long) (s - lo));
            ksim::payloadWrite(&rb[s].tag, 0);
            ksim::point();
        }
        return id0;
    }
    void publish(int64_t lo, int64_t hi, long id0, int how)
    {
        if (how == 0 && lo < hi) {
            hist::call("pub", {off(lo), off(hi), id0});
            rb.publish(lo, hi);
            hist::ret({});
            return;
        }
        auto one = [&](int64_t s) {
            hist::call("pub", {off(s), off(s), id0 + (long) (s - lo)});
            rb.publish(s);
            hist::ret({});
        };
        if (how == 2)
            for (int64_t s = hi; s >= lo; s--)
                one(s);
        else
            for (int64_t s = lo; s <= hi; s++)
                one(s);
    }
};

template<class RB> void setBase(RB &rb, bool allowBase = true)
{
    g_base = allowBase ? BASES[rnd(sizeof(BASES) / sizeof(*BASES))] : -1;
    if (g_base != -1) {
        rb.claim(g_base);
        rb.publish(g_base);
    }
}

template<class RB> constexpr bool isMulti() { return RB::PRODUCER_TYPE == producer_type::multi; }

// ------------------------------------------------ claims against consumers driven by hand (C01, C02)
template<class RB> void claims(bool conc)
{
    RB rb;
    setBase(rb);
    const int N = (int) RB::BUFFER_SIZE;
    Cfg c;
    c.n = N;
    c.multi = isMulti<RB>();
    c.k = (int) rnd(3) + (conc ? 1 : 0);
    if (c.k > 2)
        c.k = 2;
    std::vector<std::unique_ptr<sequence>> seqs;
    std::vector<sequence *> raw;
    for (int i = 0; i < c.k; i++) {
        seqs.emplace_back(new sequence());
        raw.push_back(seqs.back().get());
        c.manual.push_back(1);
        c.deps.push_back({});
        c.gating.push_back(i + 1);
    }
    rb.add_gating_sequences(raw);
    c.emit();
    if (!conc) { // sequential: claims, publications and releases in any legal order
        Producer<RB> p{rb, 1};
        std::vector<std::pair<int64_t, int64_t>> open;
        int steps = 6 + (int) rnd(14);
        int64_t pubd = g_base, claimed = g_base;
        (void) claimed;
        for (int i = 0; i < steps; i++) {
            int what = (int) rnd(10);
            if (what < 5) {
                int n = (int) rnd(7) == 0 ? (int) rnd(3) - 1 : 1 + (int) rnd(N + (rnd(6) == 0));
                if (n < 1) {
                    p.claim((int) rnd(2), n);
                    continue;
                }
                int64_t m = INT64_MAX;
                for (auto q : raw)
                    m = std::min(m, q->get());
                if (c.k == 0)
                    m = claimed;
                bool blocks = claimed + n - N > m;
                auto r = p.claim(blocks ? 1 : (int) rnd(2), n);
                if (r.second >= r.first) {
                    claimed = r.second;
                    long id = p.write(r.first, r.second);
                    if (rnd(4) == 0) {
                        // publish later
                    }
                    p.publish(r.first, r.second, id, (int) rnd(2));
                    pubd = r.second;
                }
            } else if (c.k) {
                int k = (int) rnd(c.k);
                if (raw[k]->get() < pubd) {
                    int64_t to = raw[k]->get() + 1 + (int64_t) rnd(pubd - raw[k]->get());
                    hist::call("rel", {k + 1, off(to)});
                    raw[k]->set(to);
                    hist::ret({});
                }
            }
        }
        return;
    }
    int np = c.multi ? 1 + (int) rnd(3) : 1;
    int per = 2 + (int) rnd(3);
    std::atomic<int> done{0};
    std::atomic<int64_t> pubCount{0};
    std::atomic<bool> fin{false};
    auto barrier = rb.new_barrier();
    hist::parallel(np + c.k, [&](int i) {
        if (i < np) {
            Producer<RB> p{rb, i + 1};
            for (int j = 0; j < per; j++) {
                int n = rnd(3) ? 1 : 1 + (int) rnd(N);
                int kind = ksim::weak() ? 0 : (int) rnd(2);
                auto r = p.claim(kind, n);
                if (kind == 1 && r.second < r.first && rnd(2))
                    r = p.claim(0, n);
                if (r.second >= r.first) {
                    long id = p.write(r.first, r.second);
                    p.publish(r.first, r.second, id, (int) rnd(c.multi ? 3 : 2));
                    pubCount += r.second - r.first + 1;
                }
            }
            if (++done == np)
                fin = true;
        } else {
            int k = i - np;
            int64_t nxt = g_base + 1;
            while (!(fin && nxt > g_base + pubCount)) {
                auto look = [&] {
                    int64_t cur = rb.get_cursor();
                    return cur < nxt ? nxt - 1 : rb.get_highest_published_sequence(nxt, cur);
                };
                if (look() < nxt) {
                    std::this_thread::sleep_for(std::chrono::nanoseconds(300));
                    continue;
                }
                hist::call("peek", {k + 1, off(nxt)});
                int64_t hi = look();
                hist::ret({off(hi)});
                if (hi < nxt)
                    continue;
                for (int64_t s = nxt; s <= hi; s++) {
                    long a = (long) ksim::payloadRead(&rb[s].id);
                    ksim::point();
                    long b = (long) ksim::payloadRead(&rb[s].id);
                    hist::obs("see", {k + 1, off(s), a, b});
                }
                hist::call("rel", {k + 1, off(hi)});
                raw[k]->set(hi);
                hist::ret({});
                nxt = hi + 1;
            }
        }
    });
}

// --------------------------------------------------------------- waiting on barriers (C04)
template<class RB> void waits(long tmo, bool withDeps, int late)
{
    ksim::prompt(tmo > 100000);
    RB rb;
    setBase(rb, rnd(3) == 0);
    const int N = (int) RB::BUFFER_SIZE;
    Cfg c;
    c.n = N;
    c.multi = isMulti<RB>();
    c.tmo = (int) tmo;
    if (tmo)
        hist::stamped() = true;
    int nd = withDeps ? (int) rnd(3) : 0; // upstream sequences driven by hand
    c.k = nd;
    std::vector<std::unique_ptr<sequence>> up;
    std::vector<sequence *> raw;
    for (int i = 0; i < nd; i++) {
        up.emplace_back(new sequence(g_base));
        raw.push_back(up.back().get());
        c.manual.push_back(1);
        c.deps.push_back({});
    }
    auto bar = rb.new_barrier(raw);
    c.emit();
    int total = 1 + (int) rnd(N); // never wraps: nobody gates
    int np = c.multi ? 1 + (int) rnd(2) : 1;
    int nw = 1 + (int) rnd(2);
    bool doAlert = rnd(3) == 0;
    bool starve = rnd(5) == 0; // somebody waits for more than is ever published
    bool stall = nd && doAlert && rnd(2); // an upstream consumer stops for good
    int stallAt = (int) rnd(total);
    // events or the alert come only after the waiters have gone through all the phases of waiting
    int lateEv = late && rnd(3) == 0 ? late : 0, lateAlert = late && rnd(3) == 0 ? late : 0;
    auto idle = [](int n) {
        for (int i = 0; i < n; i++)
            std::this_thread::sleep_for(std::chrono::nanoseconds(100));
    };
    int share[2] = {0, 0};
    for (int i = 0; i < total; i++)
        share[rnd(np)]++;
    int roles = np + nd + nw + (doAlert ? 1 : 0);
    std::atomic<int> pubd{0};
    hist::parallel(roles, [&](int i) {
        if (i < np) {
            Producer<RB> p{rb, i + 1};
            int left = share[i];
            while (left > 0) {
                int n = 1 + (int) rnd(left);
                if (rnd(2))
                    n = 1;
                left -= n;
                auto r = p.claim(0, n);
                if (rnd(3) == 0)
                    std::this_thread::sleep_for(std::chrono::nanoseconds(rnd(900)));
                idle(lateEv);
                lateEv = 0;
                long id = p.write(r.first, r.second);
                p.publish(r.first, r.second, id, (int) rnd(c.multi ? 3 : 2));
                pubd += n;
            }
        } else if (i < np + nd) { // an upstream consumer
            int k = i - np;
            int64_t at = g_base;
            while (at < g_base + total) {
                if (off(at) >= pubd) {
                    std::this_thread::sleep_for(std::chrono::nanoseconds(200));
                    continue;
                }
                if (stall && k == 0 && off(at) >= stallAt)
                    break;
                int64_t to = at + 1 + (int64_t) rnd(pubd - off(at));
                if (stall && k == 0 && off(to) > stallAt)
                    to = g_base + stallAt;
                hist::call("rel", {k + 1, off(to)});
                up[k]->set(to);
                hist::ret({});
                // as the processors do: no signal after moving on
                at = to;
            }
        } else if (i < np + nd + nw) {
            int n = 1 + (int) rnd(2);
            int64_t s = g_base + 1 + (int64_t) rnd(total);
            for (int j = 0; j < n; j++) {
                if (starve && j == n - 1 && i == np + nd)
                    s = g_base + total + 1;
                if (s > g_base + total + (starve && j == n - 1 && i == np + nd))
                    break;
                int64_t hi = 0;
                int64_t t0 = ksim::now();
                hist::call("wait", {off(s), (long) (t0 + tmo) / 100, tmo});
                try {
                    hi = bar->wait_for(s);
                    hist::ret({off(hi)});
                } catch (alert_exception &) {
                    hist::ret({}, "alert");
                    break;
                } catch (timeout_exception &) {
                    hist::ret({}, "timeout");
                } catch (...) {
                    hist::ret({}, "other");
                }
                if (hi >= s)
                    s = hi + 1;
            }
        } else {
            if (rnd(2))
                std::this_thread::sleep_for(std::chrono::nanoseconds(rnd(2000)));
            idle(lateAlert);
            hist::call("alert", {});
            bar->alert();
            hist::ret({});
            hist::call("isalert", {});
            bool b = bar->is_alerted();
            hist::ret({b});
            if (!ksim::weak() && !stall && rnd(3) == 0) {
                hist::call("clear", {});
                bar->clear_alert();
                hist::ret({});
            }
        }
    });
}

// --------------------------------------------------------- event processors (C03, C05, C06)
struct Shared
{
    std::atomic<long> handled[4] = {}; // per consumer
    int throwAt = -1;          // position at which consumer throwK throws
    int throwK = 0;
    int n = 0, startThrow = 0, stopThrow = 0;
};
template<class RB> struct Handler : event_handler<Ev>
{
    int k = 0;
    Shared *sh = nullptr;
    std::vector<long> ups;
    int slow = 0;
    void on_start() override
    {
        hist::obs("start", {k});
        if (sh->startThrow == k)
            throw std::runtime_error("start");
    }
    void on_shutdown() override
    {
        hist::obs("shutdown", {k});
        if (sh->stopThrow == k)
            throw std::runtime_error("stop");
    }
    void on_event(Ev &e, int64_t s, bool eob) override
    {
        long id1 = (long) ksim::payloadRead(&e.id);
        long tg = (long) ksim::payloadRead(&e.tag);
        hist::obs("ev", {k, off(s), id1, eob, tg});
        if (slow)
            std::this_thread::sleep_for(std::chrono::nanoseconds(slow));
        ksim::point();
        long id2 = (long) ksim::payloadRead(&e.id);
        long mark = 0;
        if (ups.empty()) { // leave a mark for those behind us
            mark = id1 * 10 + k;
        }
        bool thr = sh->throwK == k && sh->throwAt == off(s);
        if (!ups.empty() || sh->n == 1) {
        } else if (k == 1)
            ksim::payloadWrite(&e.tag, mark);
        sh->handled[k - 1]++;
        hist::obs("evend", {k, off(s), id2, eob, thr});
        if (thr)
            throw std::runtime_error("handler");
    }
    int64_t lastTmo = INT64_MIN;
    void on_timeout(int64_t s) override
    {
        if (s != lastTmo)
            hist::obs("tmo", {k, off(s)});
        lastTmo = s;
    }
    void on_event_exception(const std::exception &ex, int64_t s, Ev *e) override
    {
        hist::obs("exc", {k, off(s), e ? (long) ksim::payloadRead(&e->id) : -1,
                          std::string(ex.what()) == "handler"});
    }
    void on_start_exception(const std::exception &) override { hist::obs("startexc", {k}); }
    void on_shutdown_exception(const std::exception &) override { hist::obs("stopexc", {k}); }
};

template<class RB> void procs(const std::string &scen)
{
    using Proc = batch_event_processor<RB>;
    RB rb;
    setBase(rb, rnd(4) == 0);
    const int N = (int) RB::BUFFER_SIZE;
    Cfg c;
    c.n = N;
    c.multi = isMulti<RB>();
    bool life = scen == "life", topo = scen == "topo";
    if (topo) {
        switch (rnd(4)) {
        case 0: // chain
            c.deps = {{}, {1}};
            c.gating = {2};
            break;
        case 1: // longer chain
            c.deps = {{}, {1}, {2}};
            c.gating = {3};
            break;
        case 2: // diamond
            c.deps = {{}, {}, {1, 2}};
            c.gating = {3};
            break;
        default: // fan out
            c.deps = {{}, {1}, {1}};
            c.gating = {2, 3};
        }
    } else {
        int k = life ? 1 : 1 + (int) rnd(2);
        for (int i = 0; i < k; i++) {
            c.deps.push_back({});
            c.gating.push_back(i + 1);
        }
    }
    c.k = (int) c.deps.size();
    for (int i = 0; i < c.k; i++)
        c.manual.push_back(0);
    Shared sh;
    sh.n = c.k;
    std::vector<std::unique_ptr<Handler<RB>>> hs;
    std::vector<std::unique_ptr<Proc>> ps;
    std::vector<sequence *> gate;
    bool own = rnd(2);
    std::vector<std::unique_ptr<typename RB::sequence_barrier_type>> bars;
    for (int i = 0; i < c.k; i++) {
        hs.emplace_back(new Handler<RB>());
        hs[i]->k = i + 1;
        hs[i]->sh = &sh;
        hs[i]->ups = c.deps[i];
        hs[i]->slow = rnd(3) == 0 ? (int) rnd(1500) : 0;
        std::vector<sequence *> d;
        for (long u : c.deps[i])
            d.push_back(&ps[u - 1]->get_sequence());
        auto b = d.empty() && rnd(2) ? rb.new_barrier() : rb.new_barrier(d);
        if (own)
            ps.emplace_back(new Proc(rb, std::move(b), *hs[i], "p"));
        else {
            bars.push_back(std::move(b));
            ps.emplace_back(new Proc(rb, *bars.back(), *hs[i], "p"));
        }
    }
    for (long g : c.gating)
        gate.push_back(&ps[g - 1]->get_sequence());
    rb.add_gating_sequences(gate);
    for (auto &p : ps)
        p->get_sequence().set(g_base);
    if (life && rnd(3) == 0) {
        sh.throwK = 1;
        sh.throwAt = 1 + (int) rnd(5);
    } else if (!life && rnd(6) == 0) {
        sh.throwK = 1 + (int) rnd(c.k);
        sh.throwAt = 1 + (int) rnd(5);
    }
    if (life && rnd(4) == 0)
        sh.startThrow = 1;
    if (life && rnd(4) == 0)
        sh.stopThrow = 1;
    c.startThrow = sh.startThrow;
    c.stopThrow = sh.stopThrow;
    c.emit();
    int np = c.multi ? 1 + (int) rnd(life ? 2 : 3) : 1;
    int per = 2 + (int) rnd(c.multi ? 3 : 6);
    std::atomic<long> pubCount{0}, producersDone{0};
    auto producer = [&](int pid) {
        Producer<RB> p{rb, pid};
        for (int j = 0; j < per; j++) {
            int n = rnd(3) ? 1 : 1 + (int) rnd(N);
            int kind = !ksim::weak() && rnd(5) == 0;
            auto r = p.claim(kind, n);
            if (r.second < r.first)
                continue;
            long id = p.write(r.first, r.second);
            pubCount += n;
            p.publish(r.first, r.second, id, (int) rnd(c.multi ? 3 : 2));
        }
        producersDone++;
    };
    auto runner = [&](int i) {
        hist::call("run", {i + 1});
        try {
            ps[i]->run();
            hist::ret({});
        } catch (std::runtime_error &e) {
            hist::ret({}, "running");
        } catch (...) {
            hist::ret({}, "other");
        }
    };
    auto halt = [&](int i) {
        hist::call("halt", {i + 1});
        ps[i]->halt();
        hist::ret({});
    };
    auto waitRunning = [&](int i) {
        while (!ps[i]->is_running())
            std::this_thread::sleep_for(std::chrono::nanoseconds(100));
        hist::call("isrunning", {i + 1});
        bool b = ps[i]->is_running();
        hist::ret({b});
    };
    std::vector<std::thread> ts;
    if (!life) {
        bool early = rnd(2); // publish before the processors run?
        if (early)
            for (int i = 0; i < np; i++)
                ts.emplace_back(producer, i + 1);
        for (int i = 0; i < c.k; i++)
            ts.emplace_back(runner, i);
        if (!early)
            for (int i = 0; i < np; i++)
                ts.emplace_back(producer, i + 1);
        for (;;) {
            bool all = producersDone == np;
            for (int i = 0; i < c.k; i++)
                all = all && sh.handled[i] >= pubCount;
            if (all)
                break;
            std::this_thread::sleep_for(std::chrono::nanoseconds(500));
        }
        for (int i = 0; i < c.k; i++) {
            waitRunning(i);
            halt(i);
        }
        for (auto &t : ts)
            t.join();
        for (int i = 0; i < c.k; i++)
            hist::obs("seq", {i + 1, off(ps[i]->get_sequence().get())});
        return;
    }
    // lifecycle: run / halt / run again, halts at any moment, second runs refused
    int rounds = 1 + (int) rnd(3);
    ts.emplace_back(producer, 1);
    if (np > 1)
        ts.emplace_back(producer, 2);
    for (int r = 0; r < rounds; r++) {
        if (rnd(4) == 0)
            halt(0); // nobody is running
        std::atomic<bool> firstDone{false};
        std::thread run([&] { runner(0); });
        std::thread second;
        if (rnd(4) == 0)
            second = std::thread([&] {
                while (!ps[0]->is_running() && !firstDone)
                    std::this_thread::sleep_for(std::chrono::nanoseconds(100));
                // may be refused or, when the first one has ended, run itself
                runner(0);
            });
        if (rnd(2))
            std::this_thread::sleep_for(std::chrono::nanoseconds(rnd(3000)));
        if (second.joinable()) // it may be the second one that runs
            while (!ps[0]->is_running())
                std::this_thread::sleep_for(std::chrono::nanoseconds(100));
        else
            waitRunning(0);
        halt(0);
        run.join();
        firstDone = true;
        if (second.joinable()) {
            // halt whatever is still running until it has ended
            std::atomic<bool> over{false};
            std::thread stop([&] {
                while (!over) {
                    if (ps[0]->is_running())
                        halt(0);
                    std::this_thread::sleep_for(std::chrono::nanoseconds(400));
                }
            });
            second.join();
            over = true;
            stop.join();
        }
        hist::obs("isrun", {1, ps[0]->is_running()});
        hist::obs("seq", {1, off(ps[0]->get_sequence().get())});
    }
    // finally handle whatever is left
    std::thread last([&] { runner(0); });
    while (!(producersDone == np && sh.handled[0] >= pubCount))
        std::this_thread::sleep_for(std::chrono::nanoseconds(500));
    waitRunning(0);
    halt(0);
    last.join();
    for (auto &t : ts)
        t.join();
    hist::obs("seq", {1, off(ps[0]->get_sequence().get())});
}

// --------------------------------------------------------------- queries at rest (C07)
template<class RB> void queries()
{
    RB rb;
    setBase(rb);
    const int N = (int) RB::BUFFER_SIZE;
    Cfg c;
    c.n = N;
    c.multi = isMulti<RB>();
    c.k = 3;
    std::vector<std::unique_ptr<sequence>> seqs;
    std::vector<bool> in(3, false);
    for (int i = 0; i < 3; i++) {
        seqs.emplace_back(new sequence());
        c.manual.push_back(1);
        c.deps.push_back({});
    }
    c.emit();
    auto q = [&](const char *o, std::vector<long> a, long v) {
        hist::call(o, a);
        hist::ret({v});
    };
    Producer<RB> p{rb, 1};
    std::vector<std::pair<int64_t, int64_t>> open;
    std::vector<long> ids;
    int64_t cl = g_base;
    auto gate = [&] {
        int64_t m = cl;
        for (int i = 0; i < 3; i++)
            if (in[i])
                m = std::min(m, seqs[i]->get());
        return m;
    };
    auto top = [&] { // highest position below which everything is published
        return open.empty() ? cl : open.front().first - 1;
    };
    int steps = 10 + (int) rnd(rnd(3) ? 25 : 60);
    for (int st = 0; st < steps; st++) {
        switch (rnd(14)) {
        case 0:
            if (open.empty()) {
                int k = (int) rnd(3);
                if (!in[k]) {
                    if (rnd(2))
                        seqs[k]->set((int64_t) rnd(5)); // its old value does not matter
                    hist::call("addgate", {k + 1});
                    rb.add_gating_sequences({seqs[k].get()});
                    hist::ret({});
                    in[k] = true;
                }
            }
            break;
        case 1: {
            int k = (int) rnd(3);
            if (rnd(3) == 0) {
                q("rmgate", {k + 1}, rb.remove_gating_sequence(*seqs[k]));
                in[k] = false;
            }
            break;
        }
        case 2:
        case 3:
        case 4: {
            int n = 1 + (int) rnd(3);
            int kind = cl + n - N > gate() ? 1 : (int) rnd(2);
            if (cl + n - N > top()) // nobody gates: do not lap what is still being written
                break;
            auto r = p.claim(kind, n);
            if (r.second >= r.first) {
                cl = r.second;
                ids.push_back(p.write(r.first, r.second));
                open.push_back(r);
            }
            break;
        }
        case 5:
        case 6:
        case 7:
            if (!open.empty()) {
                int i = c.multi ? (int) rnd(open.size()) : 0;
                p.publish(open[i].first, open[i].second, ids[i], (int) rnd(c.multi ? 3 : 2));
                open.erase(open.begin() + i);
                ids.erase(ids.begin() + i);
            }
            break;
        case 8: {
            int k = (int) rnd(3);
            if (in[k] && seqs[k]->get() < top()) {
                int64_t to = seqs[k]->get() + 1 + (int64_t) rnd(top() - seqs[k]->get());
                hist::call("rel", {k + 1, off(to)});
                seqs[k]->set(to);
                hist::ret({});
            }
            break;
        }
        case 9: q("remaining", {}, rb.remaining_capacity()); break;
        case 10: {
            int n = 1 + (int) rnd(N + 1);
            q("hascap", {n}, rb.has_available_capacity(n));
            break;
        }
        case 11:
            q("cursor", {}, off(rb.get_cursor()));
            q("minseq", {}, off(rb.get_minimum_sequence()));
            q("bufsize", {}, (long) rb.get_buffer_size());
            break;
        case 12:
            for (int64_t s = std::max(g_base + 1, cl - (int64_t) (2 + rnd(10)) * N); s <= cl + 1; s++)
                if (rnd(2))
                    q("isavail", {off(s)}, rb.is_available(s));
            break;
        default: {
            int64_t cur = rb.get_cursor();
            int64_t lo = std::max(g_base + 1, cl - N + 1);
            if (lo <= cur) {
                lo += (int64_t) rnd(cur - lo + 1);
                int64_t hi = lo + (int64_t) rnd(cur - lo + 1);
                q("highest", {off(lo), off(hi)}, off(rb.get_highest_published_sequence(lo, hi)));
            }
            // a barrier over some of the consumers reports their minimum
            std::vector<sequence *> v;
            std::vector<long> ks;
            for (int i = 0; i < 3; i++)
                if (in[i] && rnd(2)) {
                    v.push_back(seqs[i].get());
                    ks.push_back(i + 1);
                }
            auto b = rb.new_barrier(v);
            q("barcur", ks, off(b->get_cursor()));
        }
        }
    }
}
// sequences are atomic counters
static void seqops()
{
    g_base = 0;
    Cfg c;
    c.n = 2;
    c.emit();
    sequence s((int64_t) 0);
    int nt = 1 + (int) rnd(3);
    hist::parallel(nt, [&](int) {
        int n = 1 + (int) rnd(4);
        for (int i = 0; i < n; i++) {
            long a = (long) rnd(4), b = (long) rnd(4);
            switch (rnd(5)) {
            case 0: hist::call("sget", {}); a = s.get(); hist::ret({a}); break;
            case 1: hist::call("sset", {a}); s.set(a); hist::ret({}); break;
            case 2: hist::call("scas", {a, b}); a = s.compare_and_set(a, b); hist::ret({a}); break;
            case 3: hist::call("sinc", {}); a = s.increment_and_get(); hist::ret({a}); break;
            default: hist::call("sadd", {a}); a = s.add_and_get(a); hist::ret({a}); break;
            }
        }
    });
}
// a processor that only moves on
template<class RB> void noop()
{
    using Proc = no_op_event_processor<RB>;
    RB rb;
    setBase(rb, rnd(4) == 0);
    Cfg c;
    c.n = (int) RB::BUFFER_SIZE;
    c.multi = isMulti<RB>();
    c.k = 1;
    c.noop = 1;
    c.manual = {0};
    c.deps = {{}};
    c.gating = {1};
    auto b = rb.new_barrier();
    std::unique_ptr<Proc> pr(rnd(2) ? new Proc(rb, *b) : new Proc(rb, rb.new_barrier()));
    rb.add_gating_sequences({&pr->get_sequence()});
    pr->get_sequence().set(g_base);
    c.emit();
    int rounds = 1 + (int) rnd(2);
    std::atomic<long> pubd{0};
    Producer<RB> p{rb, 1};
    for (int r = 0; r < rounds; r++) {
        std::atomic<bool> firstDone{false};
        auto runner = [&] {
            hist::call("run", {1});
            try {
                pr->run();
                hist::ret({});
            } catch (std::runtime_error &) {
                hist::ret({}, "running");
            }
        };
        std::thread run([&] {
            runner();
            firstDone = true;
        });
        std::thread prod([&] {
            for (int i = 0; i < 1 + (int) rnd(4); i++) {
                auto q = p.claim(0, 1 + (int) rnd(c.n));
                long id = p.write(q.first, q.second);
                p.publish(q.first, q.second, id, 0);
                pubd += q.second - q.first + 1;
            }
        });
        while (!pr->is_running())
            std::this_thread::sleep_for(std::chrono::nanoseconds(100));
        hist::call("isrunning", {1});
        bool up = pr->is_running();
        hist::ret({up});
        bool early = rnd(3) == 0; // halt while the producer is at work
        if (!early) {
            prod.join();
            hist::call("catchup", {1});
            while (off(pr->get_sequence().get()) < pubd)
                std::this_thread::sleep_for(std::chrono::nanoseconds(200));
            hist::ret({});
        }
        // a second run while the first one is on its way out: it is refused, or runs after it
        std::thread second;
        if (rnd(3) == 0)
            second = std::thread([&] {
                while (!firstDone && pr->is_running())
                    std::this_thread::sleep_for(std::chrono::nanoseconds(100));
                runner();
            });
        hist::call("halt", {1});
        pr->halt();
        hist::ret({});
        run.join();
        if (second.joinable()) {
            std::atomic<bool> over{false};
            std::thread stop([&] {
                while (!over) {
                    if (pr->is_running()) {
                        hist::call("halt", {1});
                        pr->halt();
                        hist::ret({});
                    }
                    std::this_thread::sleep_for(std::chrono::nanoseconds(400));
                }
            });
            second.join();
            over = true;
            stop.join();
        }
        if (early) { // let the producer finish
            std::thread again([&] {
                hist::call("run", {1});
                pr->run();
                hist::ret({});
            });
            prod.join();
            while (!pr->is_running())
                std::this_thread::sleep_for(std::chrono::nanoseconds(100));
            hist::call("isrunning", {1});
            up = pr->is_running();
            hist::ret({up});
            hist::call("halt", {1});
            pr->halt();
            hist::ret({});
            again.join();
        }
        hist::obs("noopseq", {1, off(pr->get_sequence().get())});
    }
}

template<std::size_t N, class W> using SR = ring_buffer<Ev, N, W, producer_type::single>;
template<std::size_t N, class W> using MR = ring_buffer<Ev, N, W, producer_type::multi>;
using Blocking = blocking_wait_strategy;
using Lite = lite_blocking_wait_strategy;
using Tmo = timeout_blocking_wait_strategy<3000>;
using TmoLong = timeout_blocking_wait_strategy<1000000>; // never elapses while anything else happens
using Busy = busy_spin_wait_strategy;
using Yield = yielding_wait_strategy<10>;
using Sleep = sleeping_wait_strategy<120>;
using Phased = phased_backoff_wait_strategy<1000, 2000, blocking_wait_strategy>;
using PhasedL = phased_backoff_wait_strategy<10, 2000, lite_blocking_wait_strategy>;

template<class W> void waitsFor(long tmo, bool deps, int late)
{
    if (rnd(2))
        waits<SR<4, W>>(tmo, deps, late);
    else
        waits<MR<4, W>>(tmo, deps, late);
}

static void scenario(const ksim::Params &p)
{
    if (p.scen == "claim" || p.scen == "claimseq") {
        bool conc = p.scen == "claim";
        switch (rnd(5)) {
        case 0: claims<SR<2, Blocking>>(conc); break;
        case 1: claims<SR<4, Busy>>(conc); break;
        case 2: claims<MR<2, Busy>>(conc); break;
        case 3: claims<MR<4, Blocking>>(conc); break;
        default: claims<MR<8, Busy>>(conc); break;
        }
    } else if (p.scen == "query") {
        switch (rnd(4)) {
        case 0: queries<SR<4, Busy>>(); break;
        case 1: queries<SR<8, Busy>>(); break;
        case 2: queries<MR<4, Busy>>(); break;
        default: queries<MR<8, Busy>>(); break;
        }
    } else if (p.scen == "seqops") {
        seqops();
    } else if (p.scen == "noop") {
        if (rnd(2))
            noop<SR<4, Blocking>>();
        else
            noop<MR<4, Busy>>();
    } else if (p.scen == "wait") {
        switch (rnd(6)) {
        case 0: waitsFor<Blocking>(0, true, 150); break;
        case 1: waitsFor<Lite>(0, true, 150); break;
        case 2: waitsFor<Busy>(0, true, 150); break;
        case 3: waitsFor<Yield>(0, true, 150); break;
        case 4: waitsFor<Sleep>(0, true, 150); break;
        default: waitsFor<Lite>(0, false, 150); break;
        }
    } else if (p.scen == "waittmo") {
        if (rnd(3))
            waitsFor<Tmo>(3000, rnd(2), 0);
        else
            waitsFor<TmoLong>(1000000, rnd(2), 0);
    } else if (p.scen == "waitphased") {
        ksim::setHorizon(3000, 150000);
        if (rnd(2))
            waitsFor<Phased>(0, true, 500);
        else
            waitsFor<PhasedL>(0, true, 500);
    } else {
        switch (rnd(8)) {
        case 0: procs<SR<2, Blocking>>(p.scen); break;
        case 1: procs<SR<4, Lite>>(p.scen); break;
        case 2: procs<SR<4, Yield>>(p.scen); break;
        case 3: procs<MR<2, Blocking>>(p.scen); break;
        case 4: procs<MR<4, Lite>>(p.scen); break;
        case 5: procs<MR<4, Busy>>(p.scen); break;
        case 6: procs<MR<4, Tmo>>(p.scen); break;
        default: procs<MR<8, Sleep>>(p.scen); break;
        }
    }
}

int main(int argc, char **argv)
{
    spdlog::set_level(spdlog::level::off);
    return ksim::driverMain(argc, argv, scenario);
}

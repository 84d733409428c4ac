// Histories of kpsr::mem::SafeQueue under a controlled scheduler (C10, C11).
#include "hist.h"
#include <klepsydra/mem_core/safe_queue.h>
#include <memory>
using Q = kpsr::mem::SafeQueue<long>;
using ksim::rnd;

struct World
{
    std::vector<std::unique_ptr<Q>> q;
    std::vector<long> cap;
    long next = 0;
    long val(int t) { return t * 100 + (++cnt[t]); }
    long cnt[16] = {0};
};

static void doOp(World &w, int t, int kind, int qi, int other = 0)
{
    Q &q = *w.q[qi - 1];
    long v = 0;
    switch (kind) {
    case 0: {
        long x = w.val(t);
        hist::op("push", {qi, x}, [&] {
            bool ok;
            switch (x % 3) {
            case 0: ok = q.push(x); break;
            case 1: ok = q.push(long(x)); break;
            default: ok = q.move_push(x);
            }
            return std::vector<long>{ok};
        });
        break;
    }
    case 1: {
        long x = w.val(t);
        hist::op("trypush", {qi, x}, [&] {
            bool ok;
            switch (x % 3) {
            case 0: ok = q.try_push(x); break;
            case 1: ok = q.try_push(long(x)); break;
            default: ok = q.try_move_push(x);
            }
            return std::vector<long>{ok};
        });
        break;
    }
    case 2: {
        long x = w.val(t);
        hist::op("force", {qi, x}, [&] { return std::vector<long>{(long) q.force_move_push(x)}; });
        break;
    }
    case 3: {
        bool mv = rnd(2);
        hist::op("pop", {qi}, [&] {
            v = -77;
            if (mv)
                q.move_pop(v);
            else
                q.pop(v);
            return std::vector<long>{1, v};
        });
        break;
    }
    case 4: {
        bool mv = rnd(2);
        hist::op("trypop", {qi}, [&] {
            v = -77;
            bool ok = mv ? q.try_move_pop(v) : q.try_pop(v);
            return ok ? std::vector<long>{1, v} : std::vector<long>{0};
        });
        break;
    }
    case 5: {
        static const long tos[] = {0, 1, 5, 200};
        long to = tos[rnd(4)];
        bool mv = rnd(2);
        int64_t t0 = ksim::now();
        // deadline in stamp units (100 ns), measured from before the call: never too late
        hist::op("timedpop", {qi, to, (long) (t0 / 100 + to * 10)}, [&] {
            v = -77;
            bool ok = mv ? q.timeout_move_pop(v, to) : q.timeout_pop(v, to);
            return ok ? std::vector<long>{1, v} : std::vector<long>{0};
        });
        break;
    }
    case 6:
        hist::op("size", {qi}, [&] { return std::vector<long>{(long) q.size()}; });
        break;
    case 7:
        hist::op("empty", {qi}, [&] { return std::vector<long>{q.empty()}; });
        break;
    case 8:
        hist::op("full", {qi}, [&] { return std::vector<long>{q.full()}; });
        break;
    case 9: {
        long n = rnd(4);
        hist::op("setcap", {qi, n}, [&] {
            q.set_max_num_items(n);
            return std::vector<long>{};
        });
        break;
    }
    case 10: {
        int j = other ? other : 1 + (int) rnd(w.q.size());
        hist::op("swap", {qi, j}, [&] {
            if (rnd(2))
                q.swap(*w.q[j - 1]);
            else
                swap(q, *w.q[j - 1]);
            return std::vector<long>{};
        });
        break;
    }
    case 11: {
        int j = other ? other : 1 + (int) rnd(w.q.size());
        hist::op("copy", {qi, j}, [&] {
            q = *w.q[j - 1];
            return std::vector<long>{};
        });
        break;
    }
    case 12: {
        int j = other ? other : 1 + (int) rnd(w.q.size());
        if (j == qi)
            break;
        hist::op("move", {qi, j}, [&] {
            q = std::move(*w.q[j - 1]);
            return std::vector<long>{};
        });
        break;
    }
    case 13: {
        int j = other ? other : 1 + (int) rnd(w.q.size());
        if (j == qi)
            break;
        hist::op("copynew", {qi, j}, [&] {
            w.q[qi - 1].reset(new Q(*w.q[j - 1]));
            return std::vector<long>{};
        });
        break;
    }
    case 14: {
        int j = other ? other : 1 + (int) rnd(w.q.size());
        if (j == qi)
            break;
        hist::op("movenew", {qi, j}, [&] {
            w.q[qi - 1].reset(new Q(std::move(*w.q[j - 1])));
            return std::vector<long>{};
        });
        break;
    }
    }
}

static void mkWorld(World &w, int n, bool unlimited)
{
    for (int i = 0; i < n; i++) {
        long c = unlimited ? rnd(4) : 1 + rnd(3);
        w.cap.push_back(c);
        w.q.emplace_back(new Q((unsigned) c));
    }
    hist::cfg("\"cap\":" + hist::arr(w.cap));
}

static void scenario(const ksim::Params &p)
{
    World w;
    if (p.scen == "conc") { // one queue, mixed operations from several threads
        mkWorld(w, 1, ksim::chance(30));
        static const int kinds[] = {0, 1, 2, 3, 4, 4, 1, 2, 6, 7, 8};
        int nt = 2 + rnd(3), nops = 2 + rnd(4);
        std::vector<std::vector<int>> plan(nt);
        for (auto &pl : plan)
            for (int i = 0; i < nops; i++)
                pl.push_back(kinds[rnd(11)]);
        hist::parallel(nt, [&](int i) {
            for (int k : plan[i])
                doOp(w, i + 1, k, 1);
        });
        for (int i = 0; i < 8; i++)
            doOp(w, 9, 4, 1);
    } else if (p.scen == "block") { // blocking producers and consumers, balanced or not
        bool two = ksim::chance(25);
        mkWorld(w, two ? 2 : 1, ksim::chance(15));
        int np = 1 + rnd(3), nc = 1 + rnd(3);
        std::vector<std::vector<int>> plan(np + nc + 1);
        int total = 2 + rnd(4), flavour = rnd(4);
        static const int pk[4][4] = {{0, 0, 0, 0}, {0, 0, 1, 2}, {1, 1, 2, 0}, {2, 0, 2, 0}};
        static const int ck[4][4] = {{3, 3, 3, 3}, {3, 3, 4, 3}, {3, 3, 3, 5}, {3, 5, 3, 4}};
        for (int i = 0; i < total; i++) {
            plan[rnd(np)].push_back(pk[flavour][rnd(4)]);
            plan[np + rnd(nc)].push_back(ck[flavour][rnd(4)]);
        }
        if (ksim::chance(25)) // someone may have to wait for ever
            plan[rnd(np)].push_back(0);
        if (ksim::chance(25))
            plan[np + rnd(nc)].push_back(3);
        int nt = np + nc;
        if (two || ksim::chance(20)) { // somebody changes limits or exchanges whole queues
            static const int ks[] = {9, 10, 11, 12, 9};
            int k = 1 + rnd(3);
            for (int i = 0; i < k; i++)
                plan[nt].push_back(two ? ks[rnd(5)] : 9);
            nt++;
        }
        hist::parallel(nt, [&](int i) {
            for (int k : plan[i])
                doOp(w, i + 1, k, two ? 1 + rnd(2) : 1);
        });
    } else if (p.scen == "bulk") { // one operation lets several waiting threads proceed
        bool pops = rnd(2);
        for (int i = 0; i < 2; i++) {
            w.cap.push_back(2 + rnd(3));
            w.q.emplace_back(new Q((unsigned) w.cap[i]));
        }
        hist::cfg("\"cap\":" + hist::arr(w.cap));
        for (int i = 0; i < 2; i++) { // one queue empty, the other full or nearly so
            bool fill = pops == (i == 1);
            long k = fill ? w.cap[i] - (pops ? (long) rnd(2) : 0) : (long) rnd(2) * !pops;
            for (long j = 0; j < k; j++)
                doOp(w, 9, 1, i + 1);
        }
        int nt = 2 + rnd(3);
        hist::parallel(nt + 1, [&](int i) {
            if (i < nt) {
                doOp(w, i + 1, pops ? 3 : 0, 1);
                return;
            }
            if (rnd(2))
                std::this_thread::sleep_for(std::chrono::microseconds(1 + rnd(30)));
            int n = 1 + (rnd(4) == 0);
            for (int k = 0; k < n; k++)
                switch (rnd(pops ? 4 : 6)) {
                case 0: doOp(w, i + 1, 10, 1, 2); break;
                case 1: doOp(w, i + 1, 10, 2, 1); break;
                case 2: doOp(w, i + 1, 11, 1, 2); break;
                case 3: doOp(w, i + 1, 12, 1, 2); break;
                case 4: doOp(w, i + 1, 12, 2, 1); break;
                default: doOp(w, i + 1, 9, 1);
                }
        });
    } else if (p.scen == "timed") { // timed removes with competition
        hist::stamped() = true;
        mkWorld(w, 1, false);
        int np = 1 + rnd(2), nc = 1 + rnd(2);
        hist::parallel(np + nc, [&](int i) {
            int n = 1 + rnd(3);
            for (int k = 0; k < n; k++) {
                if (i < np) {
                    if (rnd(2))
                        std::this_thread::sleep_for(std::chrono::microseconds(1 + rnd(30)));
                    doOp(w, i + 1, 1 + rnd(2), 1);
                } else
                    doOp(w, i + 1, rnd(4) ? 5 : 4, 1);
            }
        });
    } else if (p.scen == "seq") { // sequential: several queues, all operations
        mkWorld(w, 2, true);
        int n = 10 + rnd(15);
        for (int i = 0; i < n; i++) {
            int kind = rnd(15), qi = 1 + rnd(2);
            Q &q = *w.q[qi - 1];
            if (kind == 0 && q.full())
                kind = 1; // would wait for ever
            if (kind == 3 && q.empty())
                kind = 4;
            if (kind == 5)
                kind = 4;
            doOp(w, 1, kind, qi);
        }
    } else if (p.scen == "swap") { // whole-queue operations against each other and against pops
        mkWorld(w, 2, false);
        int nt = 2 + rnd(2);
        hist::parallel(nt, [&](int i) {
            static const int ks[] = {10, 10, 11, 1, 4, 2, 6};
            for (int k = 0; k < 3; k++)
                doOp(w, i + 1, ks[rnd(7)], 1 + rnd(2));
        });
        for (int i = 0; i < 6; i++) {
            doOp(w, 9, 4, 1);
            doOp(w, 9, 4, 2);
        }
    }
}

int main(int argc, char **argv)
{
    return ksim::driverMain(argc, argv, scenario);
}

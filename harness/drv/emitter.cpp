// Histories of the event emitters and their subscribers (C18, C19).
#include "hist.h"
#include "reccontainer.h"
#include <atomic>
#include <map>
#include <klepsydra/core/event_emitter_factory.h>
#include <klepsydra/core/event_emitter_middleware_provider.h>
using ksim::rnd;

// Every nesting level of a thread is a caller of its own.
static thread_local int g_depth = 0;
struct Deeper
{
    Deeper() { g_depth++; }
    ~Deeper() { g_depth--; }
};
static int me()
{
    return ksim::tid() + 10 * g_depth;
}
static void call(const char *o, const std::string &a)
{
    ksim::log("\"e\":\"call\",\"t\":" + std::to_string(me()) + ",\"o\":\"" + o + "\",\"a\":[" + a + "]");
}
static void ret(const std::vector<long> &r, const char *x = "")
{
    ksim::log("\"e\":\"ret\",\"t\":" + std::to_string(me()) + ",\"r\":" + hist::arr(r) + ",\"x\":\"" + x + "\"");
}
template<class F> static void op(const char *o, const std::string &a, F f)
{
    call(o, a);
    std::vector<long> r;
    try {
        r = f();
    } catch (const std::exception &) {
        ret({}, "exception");
        return;
    }
    ret(r);
}
static std::string q(long a)
{
    return std::to_string(a);
}
static std::string q(long a, long b)
{
    return q(a) + "," + q(b);
}
static std::string q(long a, long b, long c)
{
    return q(a, b) + "," + q(c);
}

using Emitter = kpsr::EventEmitterInterface<long>;
static const char *EV[] = {"evA", "evB", "evC"};
static std::string nm(int n)
{
    return "l" + std::to_string(n);
}

struct Raw
{
    int kind, cont;
    std::shared_ptr<Emitter> em;
    RecContainer rc;
    kpsr::Container *c;
    std::atomic<long> tags{0};
    std::function<void(long tag, int depth)> inside; // what a listener does besides

    void listener(long tag, long v)
    {
        ksim::log("\"e\":\"hit\",\"t\":" + std::to_string(ksim::tid() + 10 * (g_depth - 1)) + ",\"a\":[" + q(tag, v) + "]");
        ksim::point();
        if (inside)
            inside(tag, g_depth);
    }
    std::function<void(const long &)> cb(long tag)
    {
        return [this, tag](const long &v) { listener(tag, v); };
    }
    Raw(int k, int withc)
        : kind(k)
        , cont(withc)
        , em(kpsr::EventEmitterFactory::createEventEmitter<long>((kpsr::EventEmitterType) k))
        , c(withc ? &rc : nullptr)
    {
        hist::cfg("\"kind\":" + q(k) + ",\"cont\":" + q(withc) + ",\"sub\":0");
    }
    long on(int ev, int name)
    {
        long tag = ++tags, id = -1;
        op("on", q(tag, ev, name), [&] {
            id = em->on(c, nm(name), EV[ev], cb(tag));
            return std::vector<long>{id};
        });
        return id;
    }
    long once(int ev)
    {
        long tag = ++tags, id = -1;
        op("once", q(tag, ev), [&] {
            id = em->once(EV[ev], cb(tag));
            return std::vector<long>{id};
        });
        return id;
    }
    void remove(long id)
    {
        op("remove", q(id), [&] {
            em->removeListener(c, (unsigned) id);
            return std::vector<long>{};
        });
    }
    void removeAll()
    {
        op("removeall", "", [&] {
            em->removeAllListeners(c);
            return std::vector<long>{};
        });
    }
    void emit(int ev, long v)
    {
        op("emit", q(ev, v), [&] {
            ksim::log("\"e\":\"begin\",\"t\":" + std::to_string(me()) + ",\"a\":[" + q(ev, v) + "]");
            Deeper deeper;
            em->emitEvent(EV[ev], rnd(3) ? 0 : 5, v);
            return std::vector<long>{};
        });
    }
    void discard(int ev)
    {
        op("discard", q(ev), [&] {
            em->discardEvent(EV[ev]);
            return std::vector<long>{};
        });
    }
    void exists(long id)
    {
        op("exists", q(id), [&] { return std::vector<long>{em->getListenerStats((unsigned) id) != nullptr}; });
    }
    void stats(long id)
    {
        op("stats", q(id), [&] {
            auto s = em->getListenerStats((unsigned) id);
            if (!s)
                return std::vector<long>{0, 0, 0, 0};
            return std::vector<long>{1, (long) s->totalProcessed, (long) s->totalDiscardedEvents,
                                     (long) rc.subs.count(static_cast<kpsr::SubscriptionStats *>(s.get()))};
        });
    }
    void attached()
    {
        op("attached", "", [&] { return std::vector<long>{(long) rc.subs.size()}; });
    }
};

static void seqRaw()
{
    int kind = (int) rnd(3);
    Raw r(kind, (int) rnd(2));
    std::vector<long> ids;
    int steps = 6 + (int) rnd(20);
    long v = 0;
    int names = 1 + (int) rnd(5), evs = 1 + (int) rnd(3);
    if (kind == kpsr::SAFE && rnd(3) == 0)
        r.inside = [&](long, int d) {
            if (d < 3 && rnd(3) == 0)
                switch (rnd(4)) {
                case 0: ids.push_back(r.on((int) rnd(evs), (int) rnd(names))); break;
                case 1:
                    if (!ids.empty())
                        r.remove(ids[rnd(ids.size())]);
                    break;
                case 2: ids.push_back(r.once((int) rnd(evs))); break;
                default: r.emit((int) rnd(evs), ++v);
                }
        };
    for (int i = 0; i < steps; i++)
        switch (rnd(14)) {
        case 0:
        case 1:
        case 2:
        case 3: ids.push_back(r.on((int) rnd(evs), (int) rnd(names))); break;
        case 4: ids.push_back(r.once((int) rnd(evs))); break;
        case 5:
        case 6:
            if (!ids.empty() && rnd(6))
                r.remove(std::max(0L, ids[rnd(ids.size())]));
            else
                r.remove((long) rnd(30));
            break;
        case 7:
            if (rnd(4) == 0) {
                r.removeAll();
                if (kind == kpsr::UNSAFE_MULTI)
                    ids.clear();
            }
            break;
        case 8: r.discard((int) rnd(evs)); break;
        case 9:
        case 10:
            if (!ids.empty())
                r.stats(std::max(0L, ids[rnd(ids.size())]));
            r.attached();
            break;
        default: r.emit((int) rnd(3), ++v);
        }
    r.emit(0, ++v);
    r.removeAll();
    r.emit((int) rnd(evs), ++v);
    r.attached();
}

// through the subscriber of an event emitter middleware provider
static void seqSub()
{
    int kind = (int) rnd(3), cont = (int) rnd(2);
    RecContainer rc;
    kpsr::Container *c = cont ? &rc : nullptr;
    hist::cfg("\"kind\":" + q(kind) + ",\"cont\":" + q(cont) + ",\"sub\":1");
    {
        kpsr::EventEmitterMiddlewareProvider<long> p(c, "evt", (int) rnd(3), nullptr, nullptr, (kpsr::EventEmitterType) kind);
        auto *s = p.getSubscriber();
        auto *es = static_cast<kpsr::EventEmitterSubscriber<long> *>(s);
        long tag = 0, v = 0;
        auto hit = [](long t, long val) {
            ksim::log("\"e\":\"hit\",\"t\":" + std::to_string(ksim::tid() + 10 * (g_depth - 1)) + ",\"a\":[" + q(t, val) + "]");
        };
        std::vector<bool> in(6, false);
        int names = 1 + (int) rnd(5), steps = 6 + (int) rnd(20);
        for (int i = 0; i < steps; i++)
            switch (rnd(10)) {
            case 0:
            case 1:
            case 2: {
                int n = (int) rnd(names);
                if (kind == kpsr::SAFE && in[n])
                    break;
                long t = ++tag;
                bool sh = rnd(2), null = rnd(8) == 0;
                op(null ? "regnull" : "reg", q(t, 0, n), [&] {
                    if (sh)
                        es->registerSharedPtrListener(nm(n), null ? std::function<void(const std::shared_ptr<const long> &)>()
                                                                  : [=](const std::shared_ptr<const long> &x) { hit(t, *x); });
                    else
                        s->registerListener(nm(n), null ? std::function<void(const long &)>() : [=](const long &x) { hit(t, x); });
                    in[n] = true;
                    return std::vector<long>{};
                });
                break;
            }
            case 3: {
                long t = ++tag;
                bool sh = rnd(2), null = rnd(8) == 0;
                op(null ? "regnull" : "regonce", q(t, 0), [&] {
                    if (sh)
                        es->registerSharedPtrListenerOnce(null ? std::function<void(const std::shared_ptr<const long> &)>()
                                                               : [=](const std::shared_ptr<const long> &x) { hit(t, *x); });
                    else
                        s->registerListenerOnce(null ? std::function<void(const long &)>() : [=](const long &x) { hit(t, x); });
                    return std::vector<long>{};
                });
                break;
            }
            case 4:
            case 5: {
                int n = (int) rnd(5);
                op("rmname", q(n), [&] {
                    s->removeListener(nm(n));
                    in[n] = false;
                    return std::vector<long>{};
                });
                break;
            }
            case 6: {
                int n = (int) rnd(5);
                op("statsname", q(n), [&] {
                    auto st = s->getSubscriptionStats(nm(n));
                    if (!st)
                        return std::vector<long>{0, 0, 0, 0};
                    return std::vector<long>{1, (long) st->totalProcessed, (long) st->totalDiscardedEvents,
                                             (long) rc.subs.count(static_cast<kpsr::SubscriptionStats *>(st.get()))};
                });
                op("attached", "", [&] { return std::vector<long>{(long) rc.subs.size()}; });
                break;
            }
            default: {
                long val = ++v;
                op("emit", q(0, val), [&] {
                    ksim::log("\"e\":\"begin\",\"t\":" + std::to_string(me()) + ",\"a\":[" + q(0, val) + "]");
                    Deeper deeper;
                    switch (rnd(3)) {
                    case 0: p.getPublisher()->publish(val); break;
                    case 1: p.getPublisher()->publish(std::make_shared<const long>(val)); break;
                    default: p.getPublisher()->processAndPublish([val](long &x) { x = val; });
                    }
                    return std::vector<long>{};
                });
            }
            }
    }
    hist::call("removeall", {});
    hist::ret({});
    op("attached", "", [&] { return std::vector<long>{(long) rc.subs.size()}; });
}

// the safe emitter under concurrent use
static void conc()
{
    Raw r(kpsr::SAFE, (int) rnd(2));
    struct Ids
    {
        std::atomic<long> v[24];
        std::atomic<int> n{0};
        void add(long id)
        {
            int k = n++;
            if (k < 24)
                v[k] = id;
        }
        long pick()
        {
            int k = std::min((int) n, 24);
            long id = k ? (long) v[rnd((uint64_t) k)] : 0;
            return id > 0 ? id : 0;
        }
        Ids()
        {
            for (auto &x : v)
                x = 0;
        }
    } ids;
    std::atomic<long> v{0};
    int evs = 1 + (int) rnd(2);
    int pre = (int) rnd(3), preOnce = (int) rnd(3);
    for (int i = 0; i < pre; i++)
        ids.add(r.on((int) rnd(evs), i));
    for (int i = 0; i < preOnce; i++)
        ids.add(r.once((int) rnd(evs)));
    int nested = (int) rnd(3);
    std::atomic<int> budget{2};
    auto act = [&](int kindOf) {
        switch (kindOf) {
        case 0: ids.add(r.on((int) rnd(evs), 7)); break;
        case 1: ids.add(r.once((int) rnd(evs))); break;
        case 2: r.remove(ids.pick()); break;
        case 3: r.exists(ids.pick()); break;
        case 4: r.discard((int) rnd(evs)); break;
        case 5: r.removeAll(); break;
        default: r.emit((int) rnd(evs), ++v);
        }
    };
    if (nested)
        r.inside = [&](long, int d) {
            if (d < 3 && budget > 0 && rnd(nested == 1 ? 4 : 2) == 0) {
                budget--;
                act((int) rnd(7));
            }
        };
    bool all = rnd(4) == 0;
    hist::parallel(2 + (int) rnd(2), [&](int) {
        int n = 1 + (int) rnd(2);
        for (int i = 0; i < n; i++) {
            int k = (int) rnd(10);
            act(k == 5 && !all ? 6 : k);
        }
    });
    r.inside = nullptr;
    for (int e = 0; e < evs; e++)
        r.emit(e, ++v);
    r.attached();
}

static void scenario(const ksim::Params &p)
{
    if (p.scen == "conc")
        conc();
    else if (rnd(3) == 0)
        seqSub();
    else
        seqRaw();
}
int main(int argc, char **argv)
{
    spdlog::set_level(spdlog::level::off);
    return ksim::driverMain(argc, argv, scenario);
}

// Histories of cache listeners (C29).
#include "hist.h"
#include <chrono>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include <spdlog/spdlog.h>
#include <klepsydra/core/cache_listener.h>
#include <klepsydra/core/event_emitter_middleware_provider.h>
using ksim::rnd;
using namespace kpsr::mem;

struct Ev
{
    mutable int64_t f[2];
    long us = 0; // time a copy takes
    explicit Ev(long v) { set(v); }
    Ev(const Ev &o)
    {
        put(0, o.at(0));
        if (o.us)
            std::this_thread::sleep_for(std::chrono::microseconds(o.us));
        ksim::point();
        put(1, o.at(1));
    }
    ~Ev() { set(-50); }
    void put(int i, long v) { ksim::payloadWrite(&f[i], v); }
    long at(int i) const { return (long) ksim::payloadRead(&f[i]); }
    void set(long v)
    {
        put(0, v);
        put(1, v * 3 + 1);
    }
    std::vector<long> val() const { return {at(0), at(1)}; }
};

struct Rig
{
    std::unique_ptr<CacheListener<Ev>> l;
    MultiThreadCacheListener<Ev> *mt = nullptr;
    std::unique_ptr<kpsr::EventEmitterMiddlewareProvider<Ev>> em;
    std::map<long, std::shared_ptr<Ev>> held;
    long handles = 0, next = 0;
    bool multi;

    explicit Rig(bool m)
        : multi(m)
    {
        int k = m ? 1 : (int) rnd(3);
        if (k == 1) {
            mt = new MultiThreadCacheListener<Ev>;
            l.reset(mt);
        } else if (k == 0)
            l.reset(new CacheListener<Ev>);
        else
            l.reset(new TestCacheListener<Ev>(rnd(2) ? 0 : (int) rnd(3)));
    }
    void receive()
    {
        long v, us = rnd(2) ? 0 : (long) rnd(200);
        ksim::noPreempt(true);
        v = ++next;
        ksim::noPreempt(false);
        std::unique_ptr<Ev> e(new Ev(v));
        e->us = us;
        hist::call("receive", {v, us});
        auto t0 = ksim::now();
        if (rnd(2))
            l->cacheListenerFunction(*e);
        else
            l->onEventReceived(*e);
        hist::ret({(ksim::now() - t0) / 1000 + 1});
        e->set(-9); // the copy does not follow
    }
    long keep(const std::shared_ptr<Ev> &e, long h)
    {
        ksim::noPreempt(true);
        if (e)
            held[h] = e;
        ksim::noPreempt(false);
        return h;
    }
    long handle()
    {
        ksim::noPreempt(true);
        long h = ++handles;
        ksim::noPreempt(false);
        return h;
    }
    std::shared_ptr<Ev> any(long &h)
    {
        ksim::noPreempt(true);
        std::shared_ptr<Ev> e;
        if (!held.empty()) {
            auto it = held.begin();
            std::advance(it, rnd(held.size()));
            h = it->first;
            e = it->second;
        }
        ksim::noPreempt(false);
        return e;
    }
    void step()
    {
        long h = 0;
        std::shared_ptr<Ev> got;
        switch (rnd(multi ? 9 : 12)) {
        case 0:
        case 1:
        case 2:
            receive();
            break;
        case 3: {
            h = handle();
            ksim::noPreempt(true);
            long v = ++next;
            ksim::noPreempt(false);
            hist::call("make", {h, v});
            auto e = std::make_shared<Ev>(v);
            hist::ret({});
            hist::op("raw", {h}, [&]() -> std::vector<long> {
                l->onEventReceivedRaw(e);
                return {};
            });
            keep(e, h);
            break;
        }
        case 4:
        case 5:
            h = handle();
            hist::op("last", {h}, [&]() -> std::vector<long> {
                got = l->getLastReceivedEvent();
                return got ? got->val() : std::vector<long>{};
            });
            keep(got, h);
            break;
        case 6:
            if (mt) {
                h = handle();
                hist::op("both", {h}, [&]() -> std::vector<long> {
                    auto x = mt->getCounterAndEvent();
                    got = x.second;
                    std::vector<long> r = {x.first};
                    if (x.second)
                        for (auto v : x.second->val())
                            r.push_back(v);
                    return r;
                });
                keep(got, h);
            }
            break;
        case 7:
            hist::op("count", {}, [&]() -> std::vector<long> { return {l->counter}; });
            break;
        case 8: {
            auto e = any(h);
            if (e)
                hist::op("look", {h}, [&]() -> std::vector<long> { return e->val(); });
            break;
        }
        case 9:
            hist::op("time", {}, [&]() -> std::vector<long> { return {l->totalCopyingTime / 1000}; });
            break;
        default: {
            auto e = any(h);
            if (e) {
                long v = ++next;
                hist::call("change", {h, v});
                e->set(v);
                hist::ret({});
            }
        }
        }
    }
};

static void scenario(const ksim::Params &p)
{
    spdlog::set_level(spdlog::level::off);
    hist::cfg("\"x\":0");
    Rig r(p.scen == "threads");
    if (r.multi) {
        hist::parallel(2 + (int) rnd(2), [&](int) {
            int k = 2 + (int) rnd(4);
            for (int i = 0; i < k; i++)
                r.step();
        });
        r.mt = static_cast<MultiThreadCacheListener<Ev> *>(r.l.get());
    }
    r.multi = false;
    int k = 6 + (int) rnd(20);
    for (int i = 0; i < k; i++)
        r.step();
}
int main(int argc, char **argv)
{
    return ksim::driverMain(argc, argv, scenario);
}

// Histories of the container (C23).
#include "hist.h"
#include <list>
#include <map>
#include <spdlog/spdlog.h>
#include <klepsydra/core/core_container.h>
#include <klepsydra/core/event_emitter_middleware_provider.h>
#include <klepsydra/mem_core/basic_middleware_provider.h>
#include <klepsydra/sdk/service.h>
using ksim::rnd;

struct Svc : kpsr::Service
{
    using kpsr::Service::Service;
    void start() override {}
    void stop() override {}
    void execute() override {}
};
struct Cont : kpsr::CoreContainer
{
    using kpsr::CoreContainer::CoreContainer;
    std::vector<const void *> list(int k)
    {
        std::vector<const void *> r;
        auto get = [&](std::mutex &m, auto &v) {
            std::lock_guard<std::mutex> g(m);
            for (auto *p : v)
                r.push_back(p);
        };
        switch (k) {
        case 0:
            get(_serviceMutex, _managedServices);
            break;
        case 1:
            get(_functionStatsMutex, _functionStats);
            break;
        case 2:
            get(_serviceStatsMutex, _serviceStats);
            break;
        case 3:
            get(_publishStatsMutex, _publicationStats);
            break;
        default:
            get(_subscriptionStatsMutex, _subscriptionStats);
        }
        return r;
    }
};
struct Ev
{
    int x = 0;
};

static void empty(const char *o, const std::vector<long> &a, const std::function<void()> &f)
{
    hist::op(o, a, [&] {
        f();
        return std::vector<long>();
    });
}

struct Rig
{
    Cont c;
    std::vector<std::unique_ptr<Svc>> services;
    std::vector<std::unique_ptr<kpsr::FunctionStats>> fn;
    std::vector<std::unique_ptr<kpsr::ServiceStats>> sv;
    std::vector<std::unique_ptr<kpsr::PublicationStats>> pb;
    std::vector<std::unique_ptr<kpsr::SubscriptionStats>> sb;
    std::map<const void *, long> ids; // service and statistics objects
    std::map<long, kpsr::FunctionStats *> stats;
    int n, focus = -1; // the kind of objects looked at, if only one

    Rig()
        : c(nullptr, "app")
    {
        hist::cfg("\"app\":1");
        n = 2 + (int) rnd(2);
        const std::string pre = rnd(2) ? "" : "a rather long name of a component: ";
        auto name = [pre] { return pre + (rnd(2) ? "a" : "b"); };
        for (int i = 0; i < n; i++) {
            services.emplace_back(new Svc(nullptr, nullptr, name()));
            ids[services[i].get()] = i;
            ids[&services[i]->serviceStats] = i;
            stats[i] = &services[i]->serviceStats;
            fn.emplace_back(new kpsr::FunctionStats(name()));
            sv.emplace_back(new kpsr::ServiceStats(name()));
            pb.emplace_back(new kpsr::PublicationStats(name(), "t"));
            sb.emplace_back(new kpsr::SubscriptionStats(name(), name(), "t"));
            add(fn[i].get(), 10 + i);
            add(sv[i].get(), 20 + i);
            add(pb[i].get(), 30 + i);
            add(sb[i].get(), 40 + i);
        }
    }
    template<class T> void add(T *p, long id)
    {
        ids[p] = id;
        stats[id] = p;
    }
    void attach(int k, int i)
    {
        empty("attach", {k, k * 10 + i}, [&] {
            k == 0   ? c.attach(services[i].get())
            : k == 1 ? c.attach(fn[i].get())
            : k == 2 ? c.attach(sv[i].get())
            : k == 3 ? c.attach(pb[i].get())
                     : c.attach(sb[i].get());
        });
    }
    void detach(int k, int i)
    {
        empty("detach", {k, k * 10 + i}, [&] {
            k == 0   ? c.detach(services[i].get())
            : k == 1 ? c.detach(fn[i].get())
            : k == 2 ? c.detach(sv[i].get())
            : k == 3 ? c.detach(pb[i].get())
                     : c.detach(sb[i].get());
        });
    }
    void list(int k)
    {
        hist::op("list", {k}, [&] {
            std::vector<long> r;
            for (auto *p : c.list(k))
                r.push_back(ids.count(p) ? ids[p] : -1);
            return r;
        });
    }
    void counts(long id)
    {
        hist::op("counts", {id}, [&] { return std::vector<long>{stats[id]->starts, stats[id]->stops}; });
    }
    void some(int k, bool looks)
    {
        for (int j = 0; j < k; j++) {
            int kind = focus >= 0 ? focus : (int) rnd(5), i = (int) rnd(n);
            switch (focus >= 0 && !looks ? 1 + rnd(6) : rnd(looks ? 10 : 7)) {
            case 0:
                empty("start", {}, [&] { c.start(); });
                break;
            case 1:
                empty("stop", {}, [&] { c.stop(); });
                break;
            case 2:
            case 3:
                detach(kind, i);
                break;
            case 4:
            case 5:
            case 6:
                attach(kind, i);
                break;
            case 7:
            case 8:
                list(kind);
                break;
            default:
                counts(kind * 10 + i);
            }
        }
    }
    void all()
    {
        for (int k = 0; k < 5; k++) {
            list(k);
            for (int i = 0; i < n; i++)
                counts(k * 10 + i);
        }
    }
};

// components which register with the container themselves
struct Parts
{
    Rig &r;
    using Prov = kpsr::EventEmitterMiddlewareProvider<Ev>;
    struct Entry
    {
        std::unique_ptr<Prov> p;
        long id;
        std::map<std::string, long> subs;
    };
    std::list<Entry> provs;
    std::list<std::pair<long, std::unique_ptr<Svc>>> svcs;
    long next = 100;
    explicit Parts(Rig &r)
        : r(r)
    {}
    void step()
    {
        switch (rnd(6)) {
        case 0: { // a provider attaches the statistics of its publisher
            long id = next++;
            hist::call("attach", {3, id});
            provs.push_back({std::unique_ptr<Prov>(new Prov(&r.c, rnd(2) ? "ev" : "ev2", 0, nullptr, nullptr)), id, {}});
            r.add(&provs.back().p->getPublisher()->publicationStats, id);
            hist::ret({});
            break;
        }
        case 1:
        case 2: { // registering a listener attaches its statistics, also under a name in use elsewhere
            if (provs.empty())
                break;
            auto &e = pick();
            std::string l = rnd(2) ? "l" : "m";
            if (e.subs.count(l))
                break;
            long id = next++;
            hist::call("attach", {4, id});
            e.p->getSubscriber()->registerListener(l, [](const Ev &) {});
            r.add(e.p->getSubscriber()->getSubscriptionStats(l).get(), id);
            e.subs[l] = id;
            hist::ret({});
            break;
        }
        case 3: {
            if (provs.empty())
                break;
            auto &e = pick();
            if (e.subs.empty())
                break;
            auto it = e.subs.begin();
            hist::call("detach", {4, it->second});
            gone(it->second);
            e.p->getSubscriber()->removeListener(it->first);
            e.subs.erase(it);
            hist::ret({});
            break;
        }
        case 4: {
            long id = next++;
            hist::call("attach", {0, id});
            svcs.emplace_back(id, std::unique_ptr<Svc>(new Svc(&r.c, nullptr, rnd(2) ? "a" : "b")));
            r.ids[svcs.back().second.get()] = id;
            r.add(&svcs.back().second->serviceStats, id);
            hist::ret({});
            break;
        }
        default: {
            if (svcs.empty())
                break;
            auto it = std::next(svcs.begin(), (long) rnd(svcs.size()));
            hist::call("detach", {0, it->first});
            gone(it->first);
            svcs.erase(it);
            hist::ret({});
        }
        }
    }
    void gone(long id)
    {
        // addresses may be used again
        for (auto it = r.ids.begin(); it != r.ids.end();)
            it = it->second == id ? r.ids.erase(it) : std::next(it);
        r.stats.erase(id);
    }
    Entry &pick() { return *std::next(provs.begin(), (long) rnd(provs.size())); }
    void counts()
    {
        for (auto &s : r.stats)
            if (s.first >= 100)
                r.counts(s.first);
    }
};

static void scenario(const ksim::Params &p)
{
    Rig r;
    if (p.scen == "conc") {
        if (rnd(2)) {
            r.focus = (int) rnd(5);
            for (int i = 0; i < r.n; i++)
                r.attach(r.focus, i);
        }
        r.some((int) rnd(5), false);
        int n = 2 + (int) rnd(2);
        hist::parallel(n, [&](int) { r.some(1 + (int) rnd(n == 2 ? 4 : 3), false); });
        r.focus = -1;
    } else if (p.scen == "parts") {
        Parts parts(r);
        int k = 4 + (int) rnd(12);
        for (int i = 0; i < k; i++)
            rnd(3) ? parts.step() : r.some(1, true);
        r.all();
        parts.counts();
        // the components outlive the container no longer than this block
        return;
    } else
        r.some(4 + (int) rnd(14), true);
    r.all();
}
int main(int argc, char **argv)
{
    spdlog::set_level(spdlog::level::off);
    return ksim::driverMain(argc, argv, scenario);
}

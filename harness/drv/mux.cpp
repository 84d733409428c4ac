// Histories of the data multiplexer (C17).
#include "hist.h"
#include "reccontainer.h"
#include <atomic>
#include <klepsydra/high_performance/data_multiplexer_middleware_provider.h>
using ksim::rnd;

struct Ev
{
    int64_t v = 0;
    Ev() = default;
    explicit Ev(long x) { ksim::payloadWrite(&v, x); }
    Ev(const Ev &o) { ksim::payloadWrite(&v, ksim::payloadRead(&o.v)); }
    Ev &operator=(const Ev &o)
    {
        ksim::payloadWrite(&v, ksim::payloadRead(&o.v));
        return *this;
    }
};

template<size_t N> struct Rig
{
    using Provider = kpsr::high_performance::DataMultiplexerMiddlewareProvider<Ev, N>;
    std::unique_ptr<Provider> p;
    RecContainer rc;
    std::vector<std::vector<int>> at; // subscriber -> listeners
    std::atomic<long> last[8] = {};   // last value a listener was given
    std::atomic<long> hits[8] = {};
    std::atomic<int> inside[4] = {};
    std::atomic<bool> gate{false};
    int gated = -1, slow = -1, nl = 0;
    std::shared_ptr<Ev> own;
    long ownIs = 0;
    long accepted = 0; // the newest accepted value

    Rig()
    {
        hist::cfg("\"weak\":" + std::to_string(ksim::weak()) + ",\"size\":" + std::to_string(N));
        kpsr::Container *c = rnd(3) == 0 ? &rc : nullptr;
        std::function<void(const Ev &, Ev &)> cl = nullptr;
        if (rnd(2))
            cl = [](const Ev &a, Ev &b) { b = a; };
        if (rnd(2))
            p.reset(new Provider(c, "mux", Ev(-5), cl));
        else if (rnd(2))
            p.reset(new Provider(c, "mux", [](Ev &e) { e = Ev(-6); }, cl));
        else
            p.reset(new Provider(c, "mux", nullptr, cl));
        ksim::log("\"e\":\"call\",\"t\":100,\"o\":\"mux\",\"a\":[]");
    }
    kpsr::Subscriber<Ev> *sub(int u) { return p->getSubscriber("s" + std::to_string(u)); }
    void join()
    {
        int u = (int) at.size();
        hist::call("sub", {u});
        sub(u);
        at.push_back({});
        hist::ret({});
    }
    void got(int u, int l, long v, std::function<long()> again)
    {
        if (inside[u]++)
            ksim::impossible("a subscriber delivers twice at a time");
        hist::obs("deliver", {u, l, v});
        ksim::point();
        if (u == gated)
            while (gate)
                std::this_thread::sleep_for(std::chrono::microseconds(50));
        if (u == slow && rnd(2))
            std::this_thread::sleep_for(std::chrono::microseconds(rnd(400)));
        ksim::point();
        inside[u]--;
        hist::obs("served", {u, l, again()});
        hits[l]++;
        last[l] = v;
    }
    long processed(int u, int l)
    {
        auto s = sub(u)->getSubscriptionStats("l" + std::to_string(l));
        return s ? (long) s->totalProcessed : -1;
    }
    void reg(int u)
    {
        int l = nl++;
        hist::call("reg", {u, l});
        std::string nm = "l" + std::to_string(l);
        if (rnd(2))
            sub(u)->registerListener(nm, [this, u, l](const Ev &e) {
                got(u, l, (long) ksim::payloadRead(&e.v), [&] { return (long) ksim::payloadRead(&e.v); });
            });
        else
            sub(u)->registerSharedPtrListener(nm, [this, u, l](const std::shared_ptr<const Ev> &e) {
                got(u, l, (long) ksim::payloadRead(&e->v), [&] { return (long) ksim::payloadRead(&e->v); });
            });
        at[u].push_back(l);
        last[l] = accepted;
        hist::ret({});
    }
    void unreg(int u, size_t i)
    {
        int l = at[u][i];
        hist::call("unreg", {u, l});
        sub(u)->removeListener("l" + std::to_string(l));
        at[u].erase(at[u].begin() + i);
        hist::ret({});
    }
    long dropped() { return (long) p->getPublisher()->publicationStats.totalDiscardedEvents; }
    bool publish(long v)
    {
        hist::call("publish", {v});
        long d = dropped();
        switch (rnd(3)) {
        case 0:
            p->getPublisher()->publish(Ev(v));
            break;
        case 1:
            if (rnd(2)) { // the publisher keeps its event, and uses it again
                if (own) {
                    if ((long) ksim::payloadRead(&own->v) != ownIs)
                        ksim::impossible("an event of the publisher was changed");
                    *own = Ev(v);
                } else
                    own = std::make_shared<Ev>(v);
                ownIs = v;
                p->getPublisher()->publish(std::shared_ptr<const Ev>(own));
                if (rnd(2))
                    *own = Ev(ownIs = -v);
            } else
                p->getPublisher()->publish(std::make_shared<const Ev>(v));
            break;
        default:
            p->getPublisher()->processAndPublish([v](Ev &e) { e = Ev(v); });
        }
        bool ok = dropped() == d;
        if (ok)
            accepted = v;
        hist::ret({ok});
        return ok;
    }
    void drain()
    {
        hist::call("drain", {});
        for (int u = 0; u < (int) at.size(); u++)
            for (int l : at[u]) // counted after the listener has returned
                while (last[l] != accepted || processed(u, l) != hits[l])
                    std::this_thread::sleep_for(std::chrono::microseconds(300));
        hist::ret({});
    }
    void stats()
    {
        hist::op("dropped", {}, [&] { return std::vector<long>{dropped()}; });
        for (int u = 0; u < (int) at.size(); u++)
            for (int l : at[u])
                hist::op("stats", {u, l}, [&] {
                    auto s = sub(u)->getSubscriptionStats("l" + std::to_string(l));
                    if (!s)
                        return std::vector<long>{-1};
                    return std::vector<long>{(long) s->totalProcessed, (long) s->totalDiscardedEvents};
                });
    }
    void destroy()
    {
        hist::call("destroy", {});
        p.reset();
        hist::ret({});
        ksim::log("\"e\":\"ret\",\"t\":100,\"r\":[],\"x\":\"\"");
    }
};

// rounds of publications with listeners changing in between
template<size_t N> void rounds()
{
    Rig<N> r;
    int nu = 1 + (int) rnd(3);
    for (int u = 0; u < nu; u++) {
        r.join();
        int k = rnd(5) == 0 ? 0 : 1 + (int) rnd(4) / 3;
        for (int i = 0; i < k; i++)
            r.reg(u);
    }
    if (rnd(2))
        r.slow = (int) rnd(nu);
    long v = 0;
    int rounds = 1 + (int) rnd(3);
    for (int k = 0; k < rounds; k++) {
        bool g = rnd(3) == 0;
        if (g) {
            r.gated = (int) rnd(nu);
            r.gate = true;
        }
        int n = 1 + (int) rnd(g ? 2 * N + 2 : N + 3);
        for (int i = 0; i < n; i++)
            r.publish(++v);
        r.gate = false;
        if (rnd(4) && k + 1 < rounds)
            continue; // no rest before the next round
        r.drain();
        r.stats();
        if (k + 1 < rounds)
            switch (rnd(4)) {
            case 0: {
                int u = (int) rnd(nu);
                if (r.at[u].size() > 1)
                    r.unreg(u, rnd(r.at[u].size()));
                else if (r.at[u].size() == 1 && rnd(2))
                    r.unreg(u, 0);
                break;
            }
            case 1: {
                int u = (int) rnd(nu);
                if (r.at[u].size() && r.nl < 8)
                    r.reg(u);
                break;
            }
            case 2:
                if (nu < 3 && r.nl < 8) {
                    r.join();
                    r.reg(nu++);
                }
                break;
            }
    }
    if (rnd(4)) {
        r.drain();
        r.stats();
    }
    r.destroy(); // possibly with events still to deliver
}

static void scenario(const ksim::Params &p)
{
    switch (rnd(3)) {
    case 0:
        rounds<2>();
        break;
    case 1:
        rounds<4>();
        break;
    default:
        rounds<8>();
    }
}
int main(int argc, char **argv)
{
    spdlog::set_level(spdlog::level::off);
    return ksim::driverMain(argc, argv, scenario);
}

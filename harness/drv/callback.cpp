// Histories of request/reply handlers (C21).
#include "hist.h"
#include <atomic>
#include <spdlog/spdlog.h>
#include <klepsydra/core/callback_handler.h>
#include <klepsydra/core/event_emitter_middleware_provider.h>
using ksim::rnd;

static thread_local int g_depth = 0;
static int me(int off = 0)
{
    return ksim::tid() + 10 * (g_depth + off);
}
static void ev(const std::string &e, const std::string &rest)
{
    ksim::log("\"e\":\"" + e + "\",\"t\":" + rest);
}
static void call(const char *o, const std::vector<long> &a)
{
    ev("call", std::to_string(me()) + ",\"o\":\"" + o + "\",\"a\":" + hist::arr(a));
}
static void ret(const char *x = "")
{
    ev("ret", std::to_string(me()) + ",\"r\":[],\"x\":\"" + x + "\"");
}

struct Req
{
    long id;
};
struct Rep
{
    long id;
};
struct Rig;
struct ReqPublisher : kpsr::Publisher<Req>
{
    std::function<void(long)> onSent;
    ReqPublisher()
        : kpsr::Publisher<Req>(nullptr, "req", "TEST")
    {}
    void internalPublish(const Req &r) override { onSent(r.id); }
    void internalPublish(std::shared_ptr<const Req> r) override { onSent(r->id); }
    void processAndPublish(std::function<void(Req &)>) override {}
};

struct Rig
{
    kpsr::EventEmitterMiddlewareProvider<Rep> em;
    ReqPublisher pub;
    std::unique_ptr<kpsr::CallbackHandler<Req, Rep>> h;
    std::atomic<long> tags{0}, budget{0};
    bool sync, nest;
    int ids;

    explicit Rig(bool multi)
        : em(nullptr, "rep", 0, nullptr, nullptr)
    {
        sync = rnd(3) == 0;
        nest = rnd(2);
        ids = 1 + (int) rnd(4);
        budget = 6;
        hist::cfg("\"multi\":" + std::to_string(multi));
        make(multi);
        pub.onSent = [this](long id) {
            ev("sent", std::to_string(me()) + ",\"a\":" + hist::arr({id}));
            ksim::point();
            if (sync && rnd(3)) { // the service answers at once, from within the publication
                g_depth++;
                reply(rnd(5) ? id : (long) rnd(ids));
                g_depth--;
            }
        };
    }
    void make(bool multi)
    {
        auto corr = [](const Req &a, const Rep &b) { return a.id == b.id; };
        if (multi)
            h.reset(new kpsr::MultiThreadCallbackHandler<Req, Rep>("h", &pub, em.getSubscriber(), corr));
        else
            h.reset(new kpsr::CallbackHandler<Req, Rep>("h", &pub, em.getSubscriber(), corr));
    }
    void destroy()
    {
        call("destroy", {});
        h.reset();
        ret();
    }
    void request(long id)
    {
        long tag = ++tags;
        call("request", {id, tag});
        try {
            h->requestAndReply(Req{id}, [this, tag](const Rep &r) {
                ev("cb", std::to_string(me()) + ",\"a\":" + hist::arr({tag, r.id}));
                ksim::point();
                if (nest && rnd(2) && budget-- > 0) {
                    g_depth++;
                    int k = 1 + (int) rnd(3);
                    for (int i = 0; i < k; i++)
                        if (rnd(3))
                            request((long) rnd(ids));
                        else
                            reply((long) rnd(ids));
                    g_depth--;
                }
            });
        } catch (const std::exception &) {
            ret("exception");
            return;
        }
        ret();
    }
    void reply(long id)
    {
        call("reply", {id});
        try {
            em.getPublisher()->publish(Rep{id});
        } catch (const std::exception &) {
            ret("exception");
            return;
        }
        ret();
    }
    void some(int n)
    {
        for (int i = 0; i < n; i++)
            if (rnd(2))
                request((long) rnd(ids));
            else
                reply((long) rnd(ids + 1));
    }
};

static void scenario(const ksim::Params &p)
{
    bool multi = p.scen == "conc" || rnd(2);
    Rig r(multi);
    if (p.scen == "seq")
        r.some(3 + (int) rnd(12));
    else {
        r.budget = 3;
        int n = 2 + (int) rnd(2);
        hist::parallel(n, [&](int) { r.some(1 + (int) rnd(n == 2 ? 4 : 3)); });
    }
    // replies to whatever is outstanding, then to nothing
    r.nest = false;
    for (int k = 0; k < 3; k++)
        for (int i = 0; i < r.ids; i++)
            if (rnd(2))
                r.reply(i);
    if (rnd(3) == 0) { // a handler that is gone gets nothing; another one may take its place
        if (rnd(2))
            r.some(2);
        r.destroy();
        for (int i = 0; i < r.ids; i++)
            if (rnd(2))
                r.reply(i);
        if (rnd(2)) {
            r.make(multi);
            r.some(4);
        }
    }
}
int main(int argc, char **argv)
{
    spdlog::set_level(spdlog::level::off);
    return ksim::driverMain(argc, argv, scenario);
}

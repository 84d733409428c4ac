// Histories of the schedulers (C22).
#include "hist.h"
#include <atomic>
#include <list>
#include <klepsydra/high_performance/event_loop_middleware_provider.h>
using ksim::rnd;

static const int MAXGEN = 24;
static std::atomic<long> g_runs[MAXGEN];

struct Svc : kpsr::Service
{
    std::function<void()> f;
    explicit Svc(const std::string &n)
        : kpsr::Service(nullptr, nullptr, n)
    {
        startup();
    }
    void start() override {}
    void stop() override {}
    void execute() override { f(); }
};

struct Rig
{
    using Loop = kpsr::high_performance::EventLoopMiddlewareProvider<64>;
    bool loop, prompt;
    std::unique_ptr<Loop> el;
    std::unique_ptr<kpsr::mem::BasicScheduler> basic;
    kpsr::Scheduler *s;
    std::list<Svc> services; // outlive the scheduler
    std::map<int, Svc *> svcOf;
    int gens = 0;
    std::string prefix = rnd(2) ? "t" : rnd(2) ? "" : "a rather long name of a scheduled task, number ";
    struct Cur
    {
        int gen, repeat;
    };
    std::map<int, Cur> cur;

    explicit Rig(bool l)
        : loop(l)
    {
        hist::stamped() = true;
        for (auto &r : g_runs)
            r = 0;
        prompt = !l && rnd(2);
        ksim::prompt(prompt);
        hist::cfg("\"loop\":" + std::to_string(l) + ",\"prompt\":" + std::to_string(prompt));
        if (loop) {
            el.reset(new Loop(nullptr, "el", 1000000000L));
            s = el->getScheduler();
            el->start();
        } else {
            basic.reset(new kpsr::mem::BasicScheduler);
            s = basic.get();
        }
    }
    std::function<void()> task(int gen)
    {
        int dur = rnd(2) ? 0 : (int) rnd(2500);
        bool fast = loop; // a loop that cannot keep up would drop runs
        return [gen, dur, fast] {
            hist::obs("run", {gen});
            ksim::point();
            if (dur && !(fast && g_runs[gen] > 0))
                std::this_thread::sleep_for(std::chrono::microseconds(dur));
            if (g_runs[gen] > 3 && !fast) // keep histories short
                std::this_thread::sleep_for(std::chrono::milliseconds(20));
            hist::obs("ran", {gen});
            g_runs[gen]++;
        };
    }
    void start(int name)
    {
        int gen = gens++, repeat = (int) rnd(2);
        int after = rnd(4) ? (int) rnd(2000) : 0;
        if (loop && repeat && after < 300)
            after += 300;
        hist::call("start", {name, gen, after, repeat});
        if (name >= 2) { // a service
            // a loop may still run the function of a stopped service: there each start has its own
            if (!svcOf[name] || loop) {
                services.emplace_back(prefix + "service" + std::to_string(name));
                svcOf[name] = &services.back();
            }
            // a service runs one function: replace it only once its task has ended
            else if (cur.count(name))
                s->stopScheduledService(svcOf[name]);
            svcOf[name]->f = task(gen);
            s->startScheduledService(after, repeat, svcOf[name]);
        } else
            s->startScheduledTask(prefix + std::to_string(name), after, repeat, task(gen));
        cur[name] = {gen, repeat};
        hist::ret({});
    }
    void stop(int name)
    {
        hist::call("stop", {name});
        if (name >= 2) {
            if (svcOf[name])
                s->stopScheduledService(svcOf[name]);
        } else
            s->stopScheduledTask(prefix + std::to_string(name));
        cur.erase(name);
        hist::ret({});
    }
    void await(int name)
    {
        if (!cur.count(name))
            return;
        long k = cur[name].repeat ? 1 + (long) rnd(3) : 1;
        hist::call("await", {cur[name].gen, k});
        while (g_runs[cur[name].gen] < k)
            std::this_thread::sleep_for(std::chrono::microseconds(500));
        hist::ret({});
    }
    void destroy()
    {
        hist::call("destroy", {});
        if (loop)
            el.reset();
        else
            basic.reset();
        hist::ret({});
    }
};

static void scenario(const ksim::Params &p)
{
    Rig r(p.scen == "loop");
    int names = 4;
    int k = 2 + (int) rnd(9);
    for (int i = 0; i < k; i++) {
        int n = (int) rnd(names);
        switch (rnd(6)) {
        case 0:
        case 1:
            if (r.gens < MAXGEN)
                r.start(n);
            break;
        case 2:
            r.stop(n);
            break;
        case 3:
            std::this_thread::sleep_for(std::chrono::microseconds(rnd(3000)));
            break;
        default:
            r.await(n);
        }
    }
    if (rnd(2))
        for (int n = 0; n < names; n++)
            r.stop(n);
    if (rnd(2))
        std::this_thread::sleep_for(std::chrono::microseconds(rnd(3000)));
    if (r.loop && r.gens < MAXGEN && rnd(2)) { // whatever was handed to the loop before is over when this one runs
        r.start(1);
        r.await(1);
        std::this_thread::sleep_for(std::chrono::microseconds(rnd(8000)));
    }
    r.destroy();
    std::this_thread::sleep_for(std::chrono::microseconds(3000));
}
int main(int argc, char **argv)
{
    spdlog::set_level(spdlog::level::off);
    return ksim::driverMain(argc, argv, scenario);
}

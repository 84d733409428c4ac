// Histories of state machines (C24) and their listeners (C25).
#include "hist.h"
#include <map>
#include <memory>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <klepsydra/state_machine/json_config_loader.h>
#include <klepsydra/state_machine/kpsr_state_machine.h>
#include <klepsydra/state_machine/sm_factory_impl.h>
#include <klepsydra/state_machine/state_machine_listener.h>
using ksim::rnd;
using namespace kpsr::fsm;

static int g_depth = 0;
static void ev(const std::string &e, const std::string &rest)
{
    ksim::log("\"e\":\"" + e + "\",\"t\":" + std::to_string(g_depth) + rest);
}
template<class F> void op(const char *o, const std::vector<long> &a, F f)
{
    ev("call", std::string(",\"o\":\"") + o + "\",\"a\":" + hist::arr(a));
    try {
        f();
    } catch (const std::exception &) {
        ev("ret", ",\"r\":[],\"x\":\"exception\"");
        return;
    }
    ev("ret", ",\"r\":[],\"x\":\"\"");
}

struct Rig
{
    int nm, nl, nev;
    bool json, onlyMachines;
    std::vector<std::shared_ptr<StateMachine>> ms;
    std::vector<int> sizes;
    struct L
    {
        int m; // 0: of all machines
        std::shared_ptr<StateMachineListener> p;
    };
    std::vector<L> ls;
    long actions = 0, observers = 0;
    int budget;
    std::vector<std::string> files;

    // names: short ones, long ones which differ at the end, ones with the separator of the
    // implementation, ones which are the beginning of others
    int style = (int) rnd(6), failures = rnd(3) ? 0 : 3;
    std::string named(const char *what, long i) const
    {
        switch (style) {
        case 0:
            return std::string("a_rather_long_common_beginning_of_names_of_") + what + std::to_string(i);
        case 1:
            return std::string(what) + ":" + std::to_string(i);
        case 2:
            return std::string(i + 1, what[0]);
        default:
            return what + std::to_string(i);
        }
    }
    std::string mname(long m) const { return named("m", m); }
    std::string sname(long s) const { return named("s", s); }
    std::string ename(long e) const { return named("e", e); }

    static std::string onFile(const std::string &text, int &fd)
    {
        fd = memfd_create("fsm", 0);
        if (write(fd, text.data(), text.size()) != (ssize_t) text.size())
            abort();
        return "/proc/self/fd/" + std::to_string(fd);
    }

    explicit Rig(bool listeners)
    {
        onlyMachines = !listeners;
        nm = 1 + (int) rnd(2);
        nev = 1 + (int) rnd(3);
        budget = rnd(2) ? 0 : 4;
        json = rnd(2);
        std::string c = "\"mach\":[";
        std::vector<ConfigStateMachine> cs(nm);
        for (int m = 1; m <= nm; m++) {
            int n = 1 + (int) rnd(4);
            sizes.push_back(n);
            c += m > 1 ? ",[" : "[";
            cs[m - 1].id = mname(m);
            for (int i = 1; i <= n; i++) {
                ConfigState st;
                st.id = sname(i);
                int k = (int) rnd(4);
                c += i > 1 ? ",[" : "[";
                for (int j = 0; j < k; j++) {
                    long e = (long) rnd(nev), d = 1 + (long) rnd(n);
                    st.transitions.push_back(ConfigTransition{sname(d), ename(e)});
                    c += (j ? ",[" : "[") + std::to_string(e) + "," + std::to_string(d) + "]";
                }
                c += "]";
                cs[m - 1].states.push_back(st);
            }
            c += "]";
        }
        hist::cfg(c + "]");
        for (int m = 1; m <= nm; m++) {
            if (json) {
                std::string t = "{\"id\":\"" + mname(m) + "\",\"states\":[";
                for (size_t i = 0; i < cs[m - 1].states.size(); i++) {
                    auto &s = cs[m - 1].states[i];
                    t += (i ? ",{" : "{") + std::string("\"id\":\"") + s.id + "\",\"transitions\":[";
                    for (size_t j = 0; j < s.transitions.size(); j++)
                        t += (j ? ",{" : "{") + std::string("\"destination\":\"") + s.transitions[j].destinationId
                             + "\",\"event\":\"" + s.transitions[j].event + "\"}";
                    t += "]}";
                }
                t += "]}";
                int fd;
                files.push_back(onFile(t, fd));
                ms.push_back(FromJson::createStateMachine(files.back()));
            } else {
                SMFactoryImpl f;
                ms.push_back(f.createStateMachine(cs[m - 1]));
            }
        }
        if (listeners) {
            nl = 1 + (int) rnd(3);
            for (int i = 0; i < nl; i++) {
                int m = (int) rnd(nm + 1);
                if (m && json && rnd(2))
                    ls.push_back({m, FromJson::createStateMachineListener(files[m - 1])});
                else
                    ls.push_back({m, std::make_shared<StateMachineListener>(m ? mname(m) : "")});
            }
        }
    }
    // of machine 1, state 2 -> {1, 2}
    std::vector<long> parse(const std::string &s)
    {
        for (long m = 1; m <= nm; m++)
            for (long st = 1; st <= sizes[m - 1]; st++)
                if (mname(m) + ":" + sname(st) == s)
                    return {m, st};
        return {-1, -1};
    }
    // the observer or the action ends with an exception
    void mayFail(long m)
    {
        if (failures <= 0 || rnd(4))
            return;
        failures--;
        ev("failed", ",\"a\":" + hist::arr({m}));
        throw std::runtime_error("of an observer");
    }
    void nested()
    {
        if (budget <= 0 || rnd(2))
            return;
        g_depth++;
        int k = 1 + (int) rnd(2);
        for (int i = 0; i < k && budget > 0; i++) {
            budget--;
            step(true);
        }
        g_depth--;
    }
    void step(bool inner)
    {
        long m = 1 + (long) rnd(nm);
        auto sm = ms[m - 1];
        long e = (long) rnd(nev);
        if (!onlyMachines && rnd(inner ? 2 : 3) == 0) {
            listenerStep();
            return;
        }
        switch (rnd(16)) {
        case 0:
        case 1:
            op("start", {m}, [&] { sm->start(); });
            break;
        case 2:
            op("stop", {m}, [&] { sm->stop(); });
            break;
        case 3:
            op("reset", {m}, [&] { sm->reset(); });
            break;
        case 4:
        case 5:
        case 6:
            op("enqueue", {m, e}, [&] { sm->enqueueEvent(ename(e)); });
            break;
        case 7:
        case 8:
        case 9:
            op("update", {m}, [&] { sm->update(); });
            break;
        case 10:
            observe(m);
            break;
        case 11:
            if (rnd(4) == 0)
                op("unobserve", {m}, [&] { sm->unregisterObservers(); });
            break;
        default:
            op("enqueueUpdate", {m, e}, [&] { sm->enqueueAndUpdate(ename(e)); });
        }
    }
    void observe(long m)
    {
        if (!onlyMachines && rnd(4)) {
            long l = 1 + (long) rnd(nl);
            op("listen", {m, l}, [&] { ms[m - 1]->registerObserver(ls[l - 1].p->getObserverFunc()); });
            return;
        }
        long k = ++observers;
        op("observe", {m, k}, [&] {
            ms[m - 1]->registerObserver([this, k](const std::string &s, bool chg) {
                auto x = parse(s);
                ev("told", ",\"a\":" + hist::arr({x[0], k, x[1], chg}));
                nested();
                mayFail(x[0]);
            });
        });
    }
    void listenerStep()
    {
        long l = 1 + (long) rnd(nl);
        long m = ls[l - 1].m ? ls[l - 1].m : 1 + (long) rnd(nm);
        long st = 1 + (long) rnd(sizes[m - 1]);
        std::string name = ls[l - 1].m ? sname(st) : mname(m) + ":" + sname(st);
        auto p = ls[l - 1].p;
        switch (rnd(8)) {
        case 0:
            op("remove", {l, m, st}, [&] { p->removeActions(name); });
            break;
        case 1:
            if (rnd(3) == 0)
                op("removeAll", {l}, [&] { p->removeActions(); });
            break;
        default: {
            long kind = 1 + (long) rnd(3), id = ++actions;
            auto act = [this, l, id](const std::string &s) {
                auto x = parse(s);
                ev("act", ",\"a\":" + hist::arr({x[0], l, id, x[1]}));
                nested();
                mayFail(x[0]);
            };
            op("add", {l, kind, m, st, id}, [&] {
                kind == 1   ? p->addOneOffAction(name, act)
                : kind == 2 ? p->addAction(name, act)
                            : p->addPeriodicAction(name, act);
            });
        }
        }
    }
};

static void scenario(const ksim::Params &p)
{
    g_depth = 0;
    Rig r(p.scen == "listeners");
    for (int m = 1; m <= r.nm; m++) {
        int k = rnd(3);
        for (int i = 0; i < k; i++)
            r.observe(m);
        if (rnd(2))
            op("start", {m}, [&] { r.ms[m - 1]->start(); });
    }
    int k = 6 + (int) rnd(20);
    for (int i = 0; i < k; i++)
        r.step(false);
}
int main(int argc, char **argv)
{
    return ksim::driverMain(argc, argv, scenario);
}

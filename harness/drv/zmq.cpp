// Histories of ZMQ channels (C32) and ZMQ environments (C33).
#include "events.h"
#include <atomic>
#include <memory>
#include <random>
#include <sys/mman.h>
#include <unistd.h>
#include <spdlog/spdlog.h>
#include <klepsydra/core/configuration_environment.h>
#include <klepsydra/core/event_emitter_middleware_provider.h>
#include <klepsydra/serialization/binary_cereal_mapper.h>
#include <klepsydra/serialization/json_cereal_mapper.h>
#include <klepsydra/serialization/void_caster_mapper.h>
#include <klepsydra/zmq_core/from_zmq_middleware_provider.h>
#include <klepsydra/zmq_core/to_zmq_middleware_provider.h>
#include <klepsydra/zmq_core/zmq_env.h>
using namespace kpsr::zmq_mdlw;

static void calm(zmq::socket_t &s)
{
    while (!s.calm())
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
}
// ---- channels ----
static const char *TOPICS[] = {"w", "we", "wea/x", "x", "weather"}; // kinds: json, binary, void caster in turns
static const int NT = 5;
static int kindOf(int t) { return t % 3; }

struct Sink // a fresh destination for each registration
{
    std::unique_ptr<kpsr::EventEmitterMiddlewareProvider<Rich>> rich;
    std::unique_ptr<kpsr::EventEmitterMiddlewareProvider<Pod>> pod;
    template<class Ev> void open(std::unique_ptr<kpsr::EventEmitterMiddlewareProvider<Ev>> &p, long k, long r, long t)
    {
        p.reset(new kpsr::EventEmitterMiddlewareProvider<Ev>(nullptr, "in", 0, nullptr, nullptr));
        p->getSubscriber()->registerListener("l", [=](const Ev &e) { hist::obs("got", {k, r, t, e.seq, same(e)}); });
    }
};
struct Sub
{
    long k;
    int kind;
    zmq::socket_t socket;
    FromZmqMiddlewareProvider provider;
    std::unique_ptr<FromZmqChannel<std::string>> json;
    std::unique_ptr<FromZmqChannel<Base>> binary;
    std::unique_ptr<FromZmqChannel<Bytes>> caster;
    std::map<long, Sink> sinks;
    bool running = false;
    Sub(zmq::context_t &c, long k, int kind)
        : k(k)
        , kind(kind)
        , socket(c, ZMQ_SUB)
    {
        long period = rnd(3) == 0 ? 1 : rnd(2) ? 10 : 100;
        if (kind == 0)
            json = provider.getJsonFromMiddlewareChannel<Rich>(socket, period);
        else if (kind == 1)
            binary = provider.getBinaryFromMiddlewareChannel<Rich>(socket, period);
        else
            caster = provider.getVoidCasterFromMiddlewareChannel<Pod>(socket, period);
    }
    template<class F> void with(F f)
    {
        if (json)
            f(*json);
        if (binary)
            f(*binary);
        if (caster)
            f(*caster);
    }
    void start()
    {
        running = true;
        hist::op("start", {k}, [&]() -> std::vector<long> {
            with([](auto &c) { c.start(); });
            return {};
        });
    }
    void stop()
    {
        hist::op("stop", {k}, [&]() -> std::vector<long> {
            with([](auto &c) { c.stop(); });
            return {};
        });
        running = false;
    }
    void add(long t)
    {
        ksim::noPreempt(true);
        long r = (long) sinks.size() + 1;
        Sink &s = sinks[r];
        ksim::noPreempt(false);
        if (kind == 2)
            s.open(s.pod, k, r, t);
        else
            s.open(s.rich, k, r, t);
        hist::op("register", {k, t, r}, [&]() -> std::vector<long> {
            std::string name = TOPICS[t];
            if (caster)
                caster->registerToTopic(name, s.pod->getPublisher());
            if (json)
                json->registerToTopic(name, s.rich->getPublisher());
            if (binary)
                binary->registerToTopic(name, s.rich->getPublisher());
            return {};
        });
    }
    void remove(long t)
    {
        hist::op("unregister", {k, t}, [&]() -> std::vector<long> {
            with([&](auto &c) { c.unregisterFromTopic(TOPICS[t]); });
            return {};
        });
    }
    void destroy()
    {
        hist::op("destroy", {k}, [&]() -> std::vector<long> {
            json.reset();
            binary.reset();
            caster.reset();
            return {};
        });
        running = false;
    }
    ~Sub() {}
};
struct Pub
{
    long n;
    zmq::socket_t socket;
    ToZMQMiddlewareProvider provider;
    std::map<int, kpsr::Publisher<Rich> *> rich;
    std::map<int, kpsr::Publisher<Pod> *> pod;
    std::map<int, int> pools;
    Pub(zmq::context_t &c, long n)
        : n(n)
        , socket(c, ZMQ_PUB)
        , provider(nullptr, socket)
    {}
    template<class Ev> void publish(kpsr::Publisher<Ev> *p, long t, int kind, int s, int v)
    {
        auto e = std::make_shared<Ev>();
        fill(*e, s, v);
        hist::op("publish", {n, t, kind, s}, [&]() -> std::vector<long> {
            if (kind == 0)
                p->publish(*e);
            else if (kind == 1)
                p->publish(std::shared_ptr<const Ev>(e));
            else
                p->processAndPublish([&](Ev &x) {
                    fill(x, s, v);
                    if (kind == 3)
                        throw Exc();
                });
            return {};
        });
    }
    template<class Ev> void one(std::map<int, kpsr::Publisher<Ev> *> &known, kpsr::Publisher<Ev> *p, int t)
    {
        if (known.count(t) && known[t] != p)
            hist::obs("another", {n, t}); // the same topic has the same publisher
        known[t] = p;
        int v, s = newSeq(v, kindOf(t) == 0);
        publish(p, t, (int) (rnd(8) ? rnd(3) : 3), s, v);
    }
    void publish()
    {
        int t = (int) rnd(NT);
        int pool = (int) rnd(4);
        switch (kindOf(t)) {
        case 0:
            return one(rich, provider.getJsonToMiddlewareChannel<Rich>(TOPICS[t], pool), t);
        case 1:
            return one(rich, provider.getBinaryToMiddlewareChannel<Rich>(TOPICS[t], pool), t);
        default:
            return one(pod, provider.getVoidCasterToMiddlewareChannel<Pod>(TOPICS[t], pool), t);
        }
    }
    void garbage() // whatever somebody else sends
    {
        int t = (int) rnd(NT);
        std::string m;
        switch (rnd(3)) {
        case 0:
            m = "";
            break;
        case 1:
            m = "{\"x";
            break;
        default:
            m = "\x01";
        }
        hist::op("garbage", {n, t}, [&]() -> std::vector<long> {
            std::string name = TOPICS[t];
            socket.send(zmq::const_buffer(name.data(), name.size()), zmq::send_flags::sndmore);
            socket.send(zmq::const_buffer(m.data(), m.size()));
            return {};
        });
    }
};
static void channels(const ksim::Params &p)
{
    lastSeq = 0;
    variantOf.clear();
    zmq::context_t ctx;
    std::vector<std::unique_ptr<Pub>> pubs;
    std::vector<std::unique_ptr<Sub>> subs;
    int np = 1 + (int) rnd(2), ns = 1 + (int) rnd(2);
    for (int i = 0; i < np; i++) {
        pubs.emplace_back(new Pub(ctx, i + 1));
        pubs.back()->socket.bind("tcp://*:" + std::to_string(i));
    }
    std::string wants = "[";
    for (int i = 0; i < ns; i++) {
        subs.emplace_back(new Sub(ctx, i + 1, (int) rnd(3)));
        auto &s = subs.back()->socket;
        // the topics of its kind, a prefix of several ones, everything
        std::vector<std::string> pre;
        switch (rnd(3)) {
        case 0:
            for (int t = 0; t < NT; t++)
                if (kindOf(t) == subs.back()->kind)
                    pre.push_back(TOPICS[t]);
            break;
        case 1:
            pre = {"we", "x"};
            break;
        default:
            pre = {""};
        }
        for (auto &x : pre)
            s.setsockopt(ZMQ_SUBSCRIBE, x.c_str(), x.size());
        wants += i ? ",[" : "[";
        for (int j = 0; j < np; j++) {
            wants += j ? ",[" : "[";
            if (j == 0 || rnd(3)) {
                s.connect("tcp://*:" + std::to_string(j));
                bool first = true;
                for (int t = 0; t < NT; t++)
                    if (s.k->wants(TOPICS[t])) {
                        wants += (first ? "" : ",") + std::to_string(t);
                        first = false;
                    }
            }
            wants += "]";
        }
        wants += "]";
    }
    hist::cfg("\"env\":0,\"wants\":" + wants + "]");
    auto user = [&](Sub &s) {
        if (!s.json && !s.binary && !s.caster)
            return;
        long t = (long) rnd(NT);
        switch (rnd(8)) {
        case 0:
        case 1:
        case 2:
            t -= t % 3;
            t += s.kind;
            s.add(t < NT ? t : s.kind);
            break;
        case 3:
        case 4:
            s.remove(t);
            break;
        case 5:
        case 6:
            s.start();
            break;
        default:
            if (rnd(3))
                s.stop();
            else if (rnd(3) == 0)
                s.destroy();
        }
    };
    auto settle = [&] {
        bool any = false;
        for (auto &s : subs)
            if (s->running) {
                calm(s->socket);
                any = true;
            }
        hist::obs("settle", {});
    };
    int rounds = 1 + (int) rnd(3);
    for (int i = 0; i < rounds; i++) {
        for (auto &s : subs) {
            int k = (int) rnd(4);
            for (int j = 0; j < k; j++)
                user(*s);
        }
        if (p.scen == "threads")
            hist::parallel(np + ns, [&](int j) {
                int k = 1 + (int) rnd(4);
                while (k--)
                    if (j < ns)
                        user(*subs[j]);
                    else if (rnd(6))
                        pubs[j - ns]->publish();
                    else
                        pubs[j - ns]->garbage();
            });
        else
            for (int k = 2 + (int) rnd(8); k > 0; k--) {
                if (rnd(2) == 0)
                    user(*subs[rnd(ns)]);
                else if (rnd(6))
                    pubs[rnd(np)]->publish();
                else
                    pubs[rnd(np)]->garbage();
                if (rnd(4) == 0)
                    settle();
            }
        settle();
    }
    for (auto &s : subs)
        s->destroy();
}

// ---- environments ----
static const char *KEYS[] = {"a", "b"};
static const char *ROOTS[] = {"", "r"};
static const char *STR[] = {"", "x", "two words", "q\"\\\n", "T1", "T2", "G1", "G2"};
static const float FLT[] = {0, 0.1f, -1e30f};
static const int INT[] = {0, 1, -2147483647 - 1, 10, 100};
static const int NS = 8, NF = 3, NI = 5;
static std::string q(const std::string &s) { return "\"" + s + "\""; }
template<class F>
static void op(const char *o, const std::vector<long> &a, const std::string &k, const std::string &n, F f,
               const std::string &more = "")
{
    ksim::log("\"e\":\"call\",\"t\":" + std::to_string(ksim::tid()) + ",\"o\":\"" + o + "\",\"a\":" + hist::arr(a)
              + ",\"k\":" + q(k) + ",\"n\":" + q(n) + more);
    std::vector<long> r;
    try {
        r = f();
    } catch (const std::exception &) {
        hist::ret({}, "exception");
        return;
    }
    hist::ret(r);
}
struct OnFile
{
    int fd;
    std::string name;
    explicit OnFile(const std::string &text)
        : fd(memfd_create("env", 0))
        , name("/proc/self/fd/" + std::to_string(fd))
    {
        if (write(fd, text.data(), text.size()) != (ssize_t) text.size())
            abort();
    }
    ~OnFile() { close(fd); }
};
struct Prop
{
    long type, v;
    std::string k;
};
static std::string json(const std::vector<Prop> &ps)
{
    std::string o = "{";
    static const char *SEC[] = {"", "StringProperties", "FloatProperties", "IntProperties", "BoolProperties"};
    for (int ty = 1; ty <= 4; ty++) {
        o += std::string(ty > 1 ? "," : "") + "\"" + SEC[ty] + "\":{";
        bool first = true;
        for (auto &p : ps)
            if (p.type == ty) {
                o += std::string(first ? "" : ",") + "\"" + p.k + "\":";
                first = false;
                if (ty == 1)
                    o += std::string("\"") + (p.v == 3 ? "q\\\"\\\\\\n" : STR[p.v]) + "\"";
                else if (ty == 2)
                    o += p.v == 0 ? "0.0" : p.v == 1 ? "0.1" : "-1e30";
                else if (ty == 3)
                    o += std::to_string(INT[p.v]);
                else
                    o += p.v ? "true" : "false";
            }
        o += "}";
    }
    return o + "}";
}
static std::string listed(const std::vector<Prop> &ps)
{
    std::string v = ",\"v\":[", k = ",\"ks\":[";
    for (size_t i = 0; i < ps.size(); i++) {
        v += std::string(i ? "," : "") + "[" + std::to_string(ps[i].type) + "," + std::to_string(ps[i].v) + "]";
        k += std::string(i ? "," : "") + "\"" + ps[i].k + "\"";
    }
    return v + "]" + k + "]";
}
static std::vector<Prop> someProps()
{
    std::vector<Prop> ps;
    for (long ty = 1; ty <= 4; ty++)
        for (auto k : {"a", "b"})
            if (rnd(4) == 0)
                ps.push_back({ty, (long) rnd(ty == 1 ? NS : ty == 2 ? NF : ty == 3 ? NI : 2), k});
    return ps;
}
struct Replica
{
    long e;
    zmq::socket_t pub, sub;
    int topic, group;
    std::unique_ptr<kpsr::ConfigurationEnvironment> own;
    std::unique_ptr<ZMQEnv> env;
    Replica(zmq::context_t &c, long e, int n)
        : e(e)
        , pub(c, ZMQ_PUB)
        , sub(c, ZMQ_SUB)
    {
        pub.bind("tcp://*:" + std::to_string(e));
        for (int i = 1; i <= n; i++)
            sub.connect("tcp://*:" + std::to_string(i));
    }
    void create()
    {
        std::string T = topic ? "T" + std::to_string(topic) : "", G = group ? "G" + std::to_string(group) : "";
        auto ps = someProps();
        int how = (int) rnd(3);
        if (!topic || !group)
            how = 2;
        if (how == 0)
            ps.clear();
        std::string root = how == 1 && rnd(2) ? "r" : "";
        auto shown = ps;
        if (how == 2) {
            root = rnd(2) ? "r" : "";
            std::string pre = root.empty() ? "" : root + "/";
            long per = 3 + (long) rnd(2);
            for (auto &p : shown)
                p.k = rnd(2) ? p.k : "r/" + p.k;
            ps = shown;
            if (topic)
                shown.push_back({1, 3 + topic, pre + "kpsr_zmq_env_topic_name"});
            if (group)
                shown.push_back({1, 5 + group, pre + "kpsr_zmq_env_key"});
            if (rnd(2))
                shown.push_back({3, per, pre + "kpsr_zmq_env_poll_period"});
            ps = shown;
        } else if (!root.empty())
            for (auto &p : shown)
                p.k = root + "/" + p.k;
        op("new", {e}, "", "", [&]() -> std::vector<long> {
            if (how == 2) {
                OnFile f(json(ps));
                own.reset(new kpsr::ConfigurationEnvironment(f.name, ""));
                env.reset(root.empty() ? new ZMQEnv(own.get(), pub, sub) : new ZMQEnv(own.get(), pub, sub, root));
            } else {
                OnFile f(json(ps));
                int per = rnd(2) ? 10 : 100;
                std::string name = how ? f.name : "";
                if (root.empty())
                    env.reset(new ZMQEnv(name, G, T, per, pub, sub));
                else
                    env.reset(new ZMQEnv(name, G, T, per, pub, sub, root));
            }
            return {};
        }, listed(shown));
    }
    void set()
    {
        long ty = 1 + (long) rnd(4), v = (long) rnd(ty == 1 ? NS : ty == 2 ? NF : ty == 3 ? NI : 2);
        std::string k = KEYS[rnd(2)], n = ROOTS[rnd(2)];
        op("set", {e, ty, v}, k, n, [&]() -> std::vector<long> {
            switch (ty) {
            case 1:
                env->setPropertyString(k, STR[v], n);
                break;
            case 2:
                env->setPropertyFloat(k, FLT[v], n);
                break;
            case 3:
                env->setPropertyInt(k, INT[v], n);
                break;
            default:
                env->setPropertyBool(k, v, n);
            }
            return {};
        });
    }
    void get()
    {
        std::string k = KEYS[rnd(2)], n = ROOTS[rnd(2)];
        get(1 + (long) rnd(4), k, n);
    }
    void get(long ty, const std::string &k, const std::string &n)
    {
        long d = (long) rnd(ty == 1 ? NS : ty == 2 ? NF : ty == 3 ? NI : 2);
        op("get", {e, ty, d}, k, n, [&]() -> std::vector<long> {
            long at = -1;
            bool b;
            if (ty == 1) {
                std::string x = "poison";
                b = env->getPropertyString(k, x, STR[d], n);
                for (int i = 0; i < NS; i++)
                    if (x == STR[i])
                        at = i;
            } else if (ty == 2) {
                float x = 77;
                b = env->getPropertyFloat(k, x, FLT[d], n);
                for (int i = 0; i < NF; i++)
                    if (x == FLT[i])
                        at = i;
            } else if (ty == 3) {
                int x = 77;
                b = env->getPropertyInt(k, x, INT[d], n);
                for (int i = 0; i < NI; i++)
                    if (x == INT[i])
                        at = i;
            } else {
                bool x = !d;
                b = env->getPropertyBool(k, x, d, n);
                at = x;
            }
            return {b, at};
        });
    }
    void load()
    {
        auto ps = someProps();
        std::string root = ROOTS[rnd(2)];
        auto shown = ps;
        if (!root.empty())
            for (auto &p : shown)
                p.k = root + "/" + p.k;
        bool ok = rnd(5) > 0;
        op("load", {e, ok}, "", "", [&]() -> std::vector<long> {
            std::string t = json(ps);
            OnFile f(ok ? t : t.substr(0, rnd(t.size())));
            return {env->loadFile(f.name, root)};
        }, listed(shown));
    }
    void garbage() // somebody else sends nonsense with its socket
    {
        std::string t = topic ? "T" + std::to_string(topic) : "DEFAULT_ZMQ_TOPIC_NAME", m;
        std::string G = group ? "G" + std::to_string(group) : "DEFAULT_ZMQ_ENV_KEY";
        switch (rnd(4)) {
        case 0:
            m = "nonsense";
            break;
        case 1:
            m = "";
            break;
        default: {
            ZMQEnvironmentData d(G, rnd(2) ? "" : "{\"StringProperties\": {\"a\": 12}}", 1 + (long) rnd(5));
            kpsr::Mapper<ZMQEnvironmentData, std::string>().toMiddleware(d, m);
            if (rnd(3) == 0)
                m.resize(rnd(m.size()));
        }
        }
        op("garbage", {e}, "", "", [&]() -> std::vector<long> {
            pub.send(zmq::const_buffer(t.data(), t.size()), zmq::send_flags::sndmore);
            pub.send(zmq::const_buffer(m.data(), m.size()));
            return {};
        });
    }
};
static void environments(const ksim::Params &p)
{
    zmq::context_t ctx;
    int n = 2 + (int) rnd(2);
    std::vector<std::unique_ptr<Replica>> rs;
    std::string to = "[";
    bool one = rnd(2); // one group
    for (int i = 0; i < n; i++) {
        rs.emplace_back(new Replica(ctx, i + 1, n));
        rs[i]->topic = one ? 1 : (int) rnd(3);
        rs[i]->group = one ? 1 : (int) rnd(3);
    }
    std::vector<bool> all;
    for (int i = 0; i < n; i++) {
        all.push_back(rnd(3) == 0);
        std::string t = all[i] ? "" : rs[i]->topic ? "T" + std::to_string(rs[i]->topic) : "DEFAULT_ZMQ_TOPIC_NAME";
        rs[i]->sub.setsockopt(ZMQ_SUBSCRIBE, t.data(), t.size());
    }
    for (int i = 0; i < n; i++) { // which ones follow it
        to += i ? ",[" : "[";
        bool first = true;
        for (int j = 0; j < n; j++)
            if (j != i && rs[i]->group == rs[j]->group && (all[j] || rs[i]->topic == rs[j]->topic)) {
                to += (first ? "" : ",") + std::to_string(j + 1);
                first = false;
            }
        to += "]";
    }
    hist::cfg("\"env\":1,\"to\":" + to + "]");
    auto create = [&](Replica &r) {
        if (!r.env)
            r.create();
    };
    auto step = [&](Replica &r) {
        int x = (int) rnd(12);
        if (x < 5)
            r.set();
        else if (x < 6)
            r.load();
        else if (x < 7)
            r.garbage();
        else
            r.get();
    };
    auto settle = [&] {
        for (auto &r : rs)
            calm(r->sub);
        hist::obs("settle", {});
        for (auto &r : rs)
            for (long ty = 1; ty <= 4; ty++)
                for (auto k : KEYS)
                    for (auto x : ROOTS)
                        if (rnd(3) == 0)
                            r->get(ty, k, x);
    };
    for (auto &r : rs)
        create(*r);
    int rounds = 1 + (int) rnd(2);
    for (int i = 0; i < rounds; i++) {
        if (p.scen == "envthreads")
            hist::parallel(n, [&](int j) {
                for (int k = 1 + (int) rnd(3); k > 0; k--)
                    step(*rs[j]);
            });
        else
            for (int k = 2 + (int) rnd(8); k > 0; k--) {
                step(*rs[rnd(n)]);
                if (rnd(5) == 0)
                    settle();
            }
        settle();
    }
    for (auto &r : rs)
        r->env.reset();
}
static void scenario(const ksim::Params &p)
{
    spdlog::set_level(spdlog::level::off);
    ksim::prompt(true);
    if (p.scen.substr(0, 3) == "env")
        environments(p);
    else
        channels(p);
}
int main(int argc, char **argv)
{
    return ksim::driverMain(argc, argv, scenario);
}

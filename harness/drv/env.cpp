// Histories of configuration environments (C28).
#include "hist.h"
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstring>
#include <map>
#include <memory>
#include <sstream>
#include <sys/mman.h>
#include <unistd.h>
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <spdlog/spdlog.h>
#include <klepsydra/core/configuration_environment.h>
#include <klepsydra/core/prop_file_environment.h>
#include <klepsydra/mem_core/mem_env.h>
using ksim::rnd;
using kpsr::Environment;

static std::string q(const std::string &s)
{
    return "\"" + s + "\"";
}
template<class F>
static void op(const char *o, const std::vector<long> &a, const std::string &k, const std::string &n, F f,
               const std::string &more = "")
{
    ksim::log("\"e\":\"call\",\"t\":" + std::to_string(ksim::tid()) + ",\"o\":\"" + o + "\",\"a\":"
              + hist::arr(a) + ",\"k\":" + q(k) + ",\"n\":" + q(n) + more);
    std::vector<long> r;
    try {
        r = f();
    } catch (const std::exception &) {
        hist::ret({}, "exception");
        return;
    }
    hist::ret(r);
}

// the values of each type; the history names them by their index
static const std::vector<std::string> STR = {"", "x", "two words", "quote\"d", "back\\slash", "h\xc3\xa9", "new\nline",
                                             "tab\t.", "\x01\x1f", "0x10", "{\"a\": 1}", "null",
                                             std::string(300, 'z'), "x ", "/", "1"};
static const std::vector<float> FLT = {0.0f, 1.0f, -1.0f, 0.1f, 3.14159274f, FLT_MAX, -FLT_MAX, FLT_MIN, 1e-45f,
                                       16777217.0f, 1.00000012f, -0.3333333f, 1e10f};
static const std::vector<int> INT = {0, 1, -1, 42, INT_MAX, INT_MIN, 16777217, 1000000007, -77, 2, 9};
static const std::vector<bool> BOO = {false, true};
template<class V, class T> long idx(const V &v, const T &x, const T &poison)
{
    for (size_t i = 0; i < v.size(); i++)
        if (v[i] == x)
            return (long) i;
    return x == poison ? -2 : -1;
}
static long vals(long type)
{
    return type == 1 ? STR.size() : type == 2 ? FLT.size() : type == 3 ? INT.size() : BOO.size();
}

static int fdOf(const std::string &text)
{
    int fd = memfd_create("env", 0);
    if (write(fd, text.data(), text.size()) != (ssize_t) text.size())
        abort();
    return fd;
}
struct OnFile
{
    int fd;
    std::string name;
    explicit OnFile(const std::string &text)
        : fd(fdOf(text))
        , name("/proc/self/fd/" + std::to_string(fd))
    {}
    ~OnFile() { close(fd); }
};

static const char *KEYS[] = {"a", "b", "kpsr.c", "key with space", "d-1"};
static const char *ROOTS[] = {"", "", "r", "s/t"};
static std::string key()
{
    return KEYS[rnd(5)];
}
static std::string root()
{
    return ROOTS[rnd(4)];
}

struct Rig
{
    struct E
    {
        std::string kind;
        std::shared_ptr<Environment> p;
        kpsr::ConfigurationEnvironment *c = nullptr;
        std::shared_ptr<kpsr::DynamicConfigurationProperties> d;
    };
    std::map<long, E> es;
    std::map<long, std::string> docs;
    long ne = 0;

    void create(const std::string &kind)
    {
        long e = ++ne;
        op("new", {e}, kind, "", [&]() -> std::vector<long> {
            E x;
            x.kind = kind;
            if (kind == "config") {
                auto c = std::make_shared<kpsr::ConfigurationEnvironment>();
                x.c = c.get();
                x.p = c;
            } else if (kind == "mem")
                x.p = std::make_shared<kpsr::mem::MemEnv>();
            else
                x.d = std::make_shared<kpsr::DynamicConfigurationProperties>();
            es[e] = x;
            return {};
        });
    }
    long pickEnv(const std::string &kind = "")
    {
        std::vector<long> v;
        for (auto &x : es)
            if (kind.empty() ? x.second.kind != "dyn" : x.second.kind == kind)
                v.push_back(x.first);
        return v.empty() ? 0 : v[rnd(v.size())];
    }
    static std::string jstr(const std::string &s)
    {
        std::string o = "\"";
        char b[8];
        for (unsigned char c : s) {
            if (c == '"' || c == '\\')
                o += '\\', o += (char) c;
            else if (c < 32)
                snprintf(b, sizeof b, "\\u%04x", c), o += b;
            else
                o += (char) c;
        }
        return o + "\"";
    }
    static std::string text(long type, long v, bool json)
    {
        char b[64];
        switch (type) {
        case 1:
            return json ? jstr(STR[v]) : STR[v];
        case 2:
            snprintf(b, sizeof b, "%.9g", FLT[v]);
            return b;
        case 3:
            if (!json && INT[v] >= 0 && rnd(3) == 0)
                snprintf(b, sizeof b, "0x%x", INT[v]);
            else
                snprintf(b, sizeof b, "%d", INT[v]);
            return b;
        default:
            return json ? (BOO[v] ? "true" : "false") : BOO[v] ? "1" : "0";
        }
    }
    // a document written by hand
    void document()
    {
        long d = (long) docs.size() + 1;
        static const char *SEC[] = {"", "StringProperties", "FloatProperties", "IntProperties", "BoolProperties"};
        bool ok = rnd(6) > 0;
        std::vector<long> sec, bad;
        std::string vs = "[", ks = "[", text_ = "{";
        std::vector<long> order = {1, 2, 3, 4};
        for (int i = 3; i > 0; i--)
            std::swap(order[i], order[rnd(i + 1)]);
        for (long ty : order) {
            if (rnd(4) == 0)
                continue;
            if (text_.size() > 1)
                text_ += ",";
            text_ += std::string("\"") + SEC[ty] + "\": {";
            int n = (int) rnd(4);
            bool isBad = n && rnd(6) == 0;
            sec.push_back(ty);
            if (isBad)
                bad.push_back(ty);
            std::map<std::string, bool> seen;
            for (int i = 0; i < n; i++) {
                std::string k = (rnd(3) ? "" : "r/") + key();
                if (seen.count(k))
                    continue;
                if (seen.size())
                    text_ += ", ";
                seen[k] = true;
                long v = rnd(vals(ty));
                text_ += jstr(k) + ": "
                         + (isBad && (i == 0 || rnd(2)) ? ty == 1 ? "17" : "\"wrong\"" : text(ty, v, true));
                if (vs.size() > 1)
                    vs += ",", ks += ",";
                vs += "[" + std::to_string(ty) + "," + std::to_string(v) + "]";
                ks += jstr(k);
            }
            text_ += rnd(2) ? "}" : "}\n";
        }
        text_ += "}";
        if (!ok)
            text_ = rnd(4) == 0 ? "" : rnd(3) == 0 ? "not a document" : text_.substr(0, rnd(text_.size()));
        docs[d] = text_;
        op("doc", {d, ok}, "", "", []() -> std::vector<long> { return {}; },
           ",\"sec\":" + hist::arr(sec) + ",\"bad\":" + hist::arr(bad) + ",\"v\":" + vs + "],\"ks\":" + ks + "]");
    }
    // a property file
    void lines()
    {
        long e = ++ne;
        int n = (int) rnd(6);
        bool ok = true;
        std::map<std::string, bool> seen;
        std::string vs = "[", ks = "[", t;
        for (int i = 0; i < n; i++) {
            static const char *K[] = {"a", "b", "kpsr.c", "d-1", "r/a", "s/t/b"};
            static const char *PAD[] = {"", "", " ", "  ", "\t"};
            static const char *REM[] = {" ; remark\n", ";\n", " ; one ; two = 3\n", "\t;x;y\n"};
            std::string k = K[rnd(6)];
            long ty = 1 + (long) rnd(4), v = (long) rnd(vals(ty));
            if (ty == 1) // what fits on a line
                while (STR[v].empty() || STR[v].find_first_of("\n\t\x01") != std::string::npos || STR[v].back() == ' ')
                    v = (long) rnd(vals(1));
            switch (rnd(12)) {
            case 0:
                t += rnd(2) ? "\n" : "  \n";
                break;
            case 1:
                t += rnd(3) ? "; remark = 1\n" : rnd(2) ? "  ; one = 1 ; two\n" : ";;\n";
                break;
            case 2:
                if (rnd(3) == 0) {
                    ok = false;
                    static const char *B[] = {"novalue\n", "= 1\n", "a=\n", "  =x\n", "b =  \n"};
                    t += B[rnd(5)];
                }
                break;
            }
            if (seen.count(k)) {
                if (rnd(6))
                    continue;
                ok = false;
            }
            seen[k] = true;
            types[e][k] = ty;
            t += PAD[rnd(5)] + k + PAD[rnd(5)] + "=" + PAD[rnd(5)] + text(ty, v, false) + PAD[rnd(3)]
                 + (rnd(4) ? "\n" : REM[rnd(4)]);
            if (vs.size() > 1)
                vs += ",", ks += ",";
            vs += "[" + std::to_string(ty) + "," + std::to_string(v) + "]";
            ks += jstr(k);
        }
        if (rnd(4) == 0 && !t.empty())
            t.pop_back(); // the last line need not end
        op("lines", {e, ok}, "", "",
           [&]() -> std::vector<long> {
               E x;
               x.kind = "file";
               if (rnd(2)) {
                   OnFile f(t);
                   x.p = std::make_shared<kpsr::PropertyFileEnvironment>(f.name);
               } else {
                   std::stringstream ss(t);
                   x.p = std::make_shared<kpsr::PropertyFileEnvironment>(ss);
               }
               es[e] = x;
               return {};
           },
           ",\"v\":" + vs + "],\"ks\":" + ks + "]");
    }
    long focus = 0; // on one type
    long type() const { return focus ? focus : 1 + (long) rnd(4); }
    void set(long e)
    {
        long ty = type(), v = (long) rnd(vals(ty));
        auto k = key(), n = root();
        auto &p = *es[e].p;
        op("set", {e, ty, v}, k, n, [&]() -> std::vector<long> {
            switch (ty) {
            case 1:
                p.setPropertyString(k, STR[v], n);
                break;
            case 2:
                p.setPropertyFloat(k, FLT[v], n);
                break;
            case 3:
                p.setPropertyInt(k, INT[v], n);
                break;
            default:
                p.setPropertyBool(k, BOO[v], n);
            }
            return {};
        });
    }
    void get(long e, long ty, const std::string &k, const std::string &n)
    {
        if (es[e].kind == "file") {
            auto x = types[e].find(n.empty() ? k : n + "/" + k);
            if (x != types[e].end())
                ty = x->second;
        }
        long v = (long) rnd(vals(ty));
        auto &p = *es[e].p;
        op("get", {e, ty, v}, k, n, [&]() -> std::vector<long> {
            switch (ty) {
            case 1: {
                std::string x = "poison";
                bool b = p.getPropertyString(k, x, STR[v], n);
                return {b, idx(STR, x, std::string("poison"))};
            }
            case 2: {
                float x = 1234.5f;
                bool b = p.getPropertyFloat(k, x, FLT[v], n);
                return {b, idx(FLT, x, 1234.5f)};
            }
            case 3: {
                int x = 123456;
                bool b = p.getPropertyInt(k, x, INT[v], n);
                return {b, idx(INT, x, 123456)};
            }
            default: {
                bool x = !BOO[v];
                bool b = p.getPropertyBool(k, x, BOO[v], n);
                return {b, x};
            }
            }
        });
    }
    // what a property file holds under a key has one type only
    std::map<long, std::map<std::string, long>> types;
    void look(long e)
    {
        auto k = key(), n = root();
        get(e, type(), k, n);
    }
    void dyn()
    {
        long e = pickEnv("dyn"), f = pickEnv("dyn");
        if (!e)
            return;
        auto &d = *es[e].d;
        long ty = 1 + (long) rnd(4), v = (long) rnd(vals(ty));
        auto k = key();
        switch (rnd(8)) {
        case 0:
        case 1:
        case 2:
            op("dset", {e, ty, v}, k, "", [&]() -> std::vector<long> {
                return {ty == 1   ? d.setProperty(k, STR[v])
                        : ty == 2 ? d.setProperty(k, FLT[v])
                        : ty == 3 ? d.setProperty(k, INT[v])
                                  : d.setProperty(k, (bool) BOO[v])};
            });
            break;
        case 3:
            if (f != e) {
                auto n = root();
                op("dcopy", {e, f}, "", n, [&]() -> std::vector<long> {
                    d.copyFrom(*es[f].d, n);
                    return {};
                });
            }
            break;
        case 4:
            if (f != e && rnd(2))
                op("dclone", {e, f}, "", "", [&]() -> std::vector<long> {
                    std::stringstream ss;
                    auto n = std::make_shared<kpsr::DynamicConfigurationProperties>();
                    {
                        cereal::JSONOutputArchive o(ss);
                        o(d);
                    }
                    {
                        cereal::JSONInputArchive i(ss);
                        i(*n);
                    }
                    es[f].d = n;
                    return {};
                });
            break;
        default:
            op("dget", {e, ty}, k, "", [&]() -> std::vector<long> {
                switch (ty) {
                case 1: {
                    std::string x = "poison";
                    bool b = d.getProperty(k, x);
                    return {b, idx(STR, x, std::string("poison"))};
                }
                case 2: {
                    float x = 1234.5f;
                    bool b = d.getProperty(k, x);
                    return {b, idx(FLT, x, 1234.5f)};
                }
                case 3: {
                    int x = 123456;
                    bool b = d.getProperty(k, x);
                    return {b, idx(INT, x, 123456)};
                }
                default: {
                    bool x = false;
                    bool b = d.getProperty(k, x);
                    if (!b && !x)
                        return {b, -2};
                    return {b, x};
                }
                }
            });
        }
    }
    void step(bool withDyn)
    {
        long e = pickEnv(), c = pickEnv("config");
        switch (rnd(withDyn ? 20 : 14)) {
        case 0:
            create(rnd(2) ? "config" : "mem");
            break;
        case 1:
            document();
            break;
        case 2:
            if (rnd(2))
                lines();
            break;
        case 3:
            if (c) {
                long d = (long) docs.size() + 1;
                op("export", {c, d}, "", "", [&]() -> std::vector<long> {
                    docs[d] = es[c].c->exportEnvironment();
                    return {};
                });
            }
            break;
        case 4:
            if (e) {
                long d = docs.empty() || rnd(8) == 0 ? 0 : 1 + (long) rnd(docs.size());
                auto n = root();
                op("load", {e, d}, "", n, [&]() -> std::vector<long> {
                    if (!d)
                        return {es[e].p->loadFile("/nowhere/at/all", n)};
                    OnFile f(docs[d]);
                    return {es[e].p->loadFile(f.name, n)};
                });
            }
            break;
        case 5:
            if (c && !docs.empty()) {
                long d = 1 + (long) rnd(docs.size());
                op("update", {c, d}, "", "", [&]() -> std::vector<long> {
                    return {es[c].c->updateConfiguration(docs[d])};
                });
            }
            break;
        case 6: {
            long d = docs.empty() || rnd(8) == 0 ? 0 : 1 + (long) rnd(docs.size());
            long x = ++ne;
            auto n = root();
            op("newfile", {x, d}, "", n, [&]() -> std::vector<long> {
                OnFile f(d ? docs[d] : "");
                auto p = std::make_shared<kpsr::ConfigurationEnvironment>(d ? f.name : "/nowhere/at/all", n);
                E y;
                y.kind = "config";
                y.c = p.get();
                y.p = p;
                es[x] = y;
                return {};
            });
            break;
        }
        case 7:
        case 8:
        case 9:
            if (e)
                set(e);
            break;
        case 14:
            create("dyn");
            break;
        case 15:
        case 16:
        case 17:
        case 18:
        case 19:
            dyn();
            break;
        default:
            if (e)
                look(e);
        }
    }
};

static void scenario(const ksim::Params &p)
{
    spdlog::set_level(spdlog::level::off);
    hist::cfg("\"x\":0");
    Rig r;
    if (p.scen == "threads") { // the in-memory environment is shared between threads
        r.create("mem");
        if (rnd(3))
            r.focus = 1 + (long) rnd(4);
        hist::parallel(2 + (int) rnd(2), [&](int) {
            int k = 2 + (int) rnd(5);
            for (int i = 0; i < k; i++) {
                if (rnd(3))
                    r.set(1);
                else
                    r.look(1);
            }
        });
        return;
    }
    if (p.scen == "dyn")
        for (int i = 0; i < 2; i++)
            r.create("dyn");
    else
        r.create("config");
    int k = 8 + (int) rnd(25);
    for (int i = 0; i < k; i++)
        if (p.scen == "dyn")
            r.dyn();
        else
            r.step(false);
    // whatever is there now
    for (auto &x : r.es)
        if (x.second.p && rnd(2))
            for (long ty = 1; ty <= 4; ty++)
                for (auto k : KEYS)
                    if (rnd(2))
                        r.get(x.first, ty, k, root());
}
int main(int argc, char **argv)
{
    return ksim::driverMain(argc, argv, scenario);
}

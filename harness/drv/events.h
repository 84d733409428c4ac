// Events of middleware channels: boundary values, told apart by their sequence number.
#pragma once
#include "hist.h"
#include <cmath>
#include <cstring>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <cereal/types/map.hpp>
#include <cereal/types/string.hpp>
#include <cereal/types/vector.hpp>
#include <klepsydra/core/sensor.h>
using ksim::rnd;
using Bytes = std::vector<unsigned char>;

struct Inner
{
    int16_t a = 0;
    std::string b;
    template<class A> void serialize(A &ar) { ar(CEREAL_NVP(a), CEREAL_NVP(b)); }
    bool operator==(const Inner &o) const { return a == o.a && b == o.b; }
};
struct Rich : kpsr::Sensor
{
    bool flag = false;
    int8_t i8 = 0;
    uint16_t u16 = 0;
    int32_t i32 = 0;
    int64_t i64 = 0;
    uint64_t u64 = 0;
    float f = 0;
    double d = 0;
    std::string text;
    std::vector<int> ints;
    std::vector<std::string> texts;
    std::map<std::string, double> named;
    std::vector<Inner> inner;
    Rich()
        : kpsr::Sensor("", -1, 0)
    {}
    template<class A> void serialize(A &ar)
    {
        ar(CEREAL_NVP(frameId), CEREAL_NVP(seq), CEREAL_NVP(timestamp), CEREAL_NVP(flag), CEREAL_NVP(i8), CEREAL_NVP(u16),
           CEREAL_NVP(i32), CEREAL_NVP(i64), CEREAL_NVP(u64), CEREAL_NVP(f), CEREAL_NVP(d), CEREAL_NVP(text),
           CEREAL_NVP(ints), CEREAL_NVP(texts), CEREAL_NVP(named), CEREAL_NVP(inner));
    }
    bool operator==(const Rich &o) const
    {
        return frameId == o.frameId && timestamp == o.timestamp && flag == o.flag && i8 == o.i8 && u16 == o.u16
               && i32 == o.i32 && i64 == o.i64 && u64 == o.u64 && f == o.f && std::signbit(f) == std::signbit(o.f)
               && d == o.d && std::signbit(d) == std::signbit(o.d) && text == o.text && ints == o.ints
               && texts == o.texts && named == o.named && inner == o.inner;
    }
};
struct Pod
{
    int seq;
    char c;
    double d[3];
    int64_t i64;
    unsigned char bytes[13];
    bool operator==(const Pod &o) const
    {
        return c == o.c && !memcmp(d, o.d, sizeof d) && i64 == o.i64 && !memcmp(bytes, o.bytes, sizeof bytes);
    }
};

static const int VARIANTS = 9; // the last one has texts JSON cannot carry (NUL characters)
static void make(int v, Rich &r)
{
    using L64 = std::numeric_limits<int64_t>;
    using LD = std::numeric_limits<double>;
    using LF = std::numeric_limits<float>;
    std::string ctl;
    for (int c = 0; c < 256; c++)
        ctl += (char) c;
    switch (v) {
    case 0:
        break;
    case 1:
        r.frameId = "frame";
        r.timestamp = L64::max();
        r.flag = true;
        r.i8 = 127;
        r.u16 = 65535;
        r.i32 = std::numeric_limits<int32_t>::max();
        r.i64 = L64::max();
        r.u64 = std::numeric_limits<uint64_t>::max();
        r.f = LF::max();
        r.d = LD::max();
        r.text = "plain";
        r.ints = {1, 2, 3};
        break;
    case 2:
        r.timestamp = L64::min();
        r.i8 = -128;
        r.i32 = std::numeric_limits<int32_t>::min();
        r.i64 = L64::min();
        r.f = LF::lowest();
        r.d = LD::lowest();
        r.text = std::string(3000, 'x') + "\"quoted\" \\ / {} [] , : \n\t\r";
        r.texts = {"", " ", "a b", "\"", "\\"};
        break;
    case 3:
        r.f = LF::min();
        r.d = LD::min();
        r.named = {{"", -1.5}, {"a", 0.1}, {"b c", 1e300}, {"d\"e", 1.0 / 3}};
        r.inner = {{1, "one"}, {-32768, ""}, {32767, "\xc3\xa9\xe2\x82\xac"}};
        break;
    case 4:
        r.f = LF::denorm_min();
        r.d = LD::denorm_min();
        r.text = "\xf0\x9f\x98\x80 \xc3\xa9";
        for (int i = 0; i < 500; i++)
            r.ints.push_back(i * i * (i % 2 ? 1 : -1));
        break;
    case 5:
        r.f = -0.0f;
        r.d = -0.0;
        r.text = "\x01\x1f\x7f";
        r.texts = std::vector<std::string>(20, std::string(50, 'z'));
        break;
    case 6:
        r.f = 0.1f;
        r.d = 0.1;
        r.frameId = "9007199254740993";
        r.i64 = 9007199254740993LL;
        r.u64 = 9007199254740993ULL;
        r.timestamp = -1;
        break;
    case 8:
        r.text = ctl + ctl;
        r.frameId = std::string(1, '\0');
        r.inner = {{5, ctl}};
        break;
    default:
        r.flag = true;
        r.f = 16777217.0f;
        r.d = 123456789.12345678;
        r.text = ctl.substr(1, 127);
        r.frameId = "null";
        r.named = {{"k", LD::epsilon()}};
    }
}
static void make(int v, Pod &p)
{
    memset(&p, 0, sizeof p);
    for (int i = 0; i < 13; i++)
        p.bytes[i] = (unsigned char) (v * 37 + i * 11);
    p.c = (char) (v * 33);
    p.i64 = v % 2 ? std::numeric_limits<int64_t>::min() + v : std::numeric_limits<int64_t>::max() - v;
    p.d[0] = v == 1 ? std::nan("") : v == 2 ? -INFINITY : v * 0.1;
    p.d[1] = -0.0;
    p.d[2] = 1e308 / (v + 1);
}
template<class Ev> static void fill(Ev &e, int seq, int v)
{
    make(v, e);
    e.seq = seq;
}
static std::map<int, int> variantOf;
template<class Ev> static bool same(const Ev &e)
{
    ksim::noPreempt(true);
    auto it = variantOf.find(e.seq);
    int v = it == variantOf.end() ? -1 : it->second;
    ksim::noPreempt(false);
    if (v < 0)
        return false;
    Ev w;
    make(v, w);
    return w == e;
}
struct Exc : std::runtime_error
{
    Exc()
        : std::runtime_error("thrown by the user")
    {}
};
static long lastSeq;
static int newSeq(int &v, bool json)
{
    ksim::noPreempt(true);
    int s = (int) ++lastSeq;
    v = (int) rnd(VARIANTS - json);
    variantOf[s] = v;
    ksim::noPreempt(false);
    return s;
}


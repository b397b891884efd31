// Interpretation of specification values as floats.
#pragma once
#include <cmath>
#include <cfloat>
#include <cstdint>
#include <cstring>
#include "json.h"

static const float ORD[] = {
    0.0f, 1.4e-45f, 1e-40f, 1.17549435e-38f, 1e-30f, 1e-10f, 1e-6f, 1e-4f, 1e-3f, 0.1f, 0.25f, 0.5f,           // 0..11
    1.0f, 1.0000001f, 1.5f, 2.0f, 3.14159f, 5.9999f, 6.0f, 6.0001f, 10.0f, 88.0f, 100.0f, 1000.0f, 9999.0f,     // 12..24
    32767.0f, 65504.0f, 99999.0f, 100001.0f, 1e6f, 8388607.5f, 16777215.0f, 1e9f, 2147483648.0f, 4294967296.0f, // 25..34
    1e15f, 1e20f, 1e25f, 1e30f, 1e35f, 1e38f, FLT_MAX };                                                           // 35..41
static const int ORDN = sizeof(ORD) / sizeof(ORD[0]);

inline uint32_t fbits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
inline float bitsf(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }

inline float ordf(long long k) {
    if (k == 90) return INFINITY;
    if (k == -90) return -INFINITY;
    if (k == 200) return bitsf(0x80000000u);   // -0
    if (k == 201) return bitsf(0x7fc01234u);   // quiet NaN with payload
    if (k == 202) return bitsf(0xffc00001u);
    if (k <= -ORDN || k >= ORDN) throw std::runtime_error("ordinal out of range");
    return k < 0 ? -ORD[-k] : ORD[k];
}

struct Val {   // an expected tensor
    std::vector<unsigned> sh;
    std::vector<long long> d, q, xs;
    char m; int x, p; long long qd, off, t, a;
    explicit Val(const J &j) {
        sh = j["sh"].u32(); d = j["d"].ints(); q = j["q"].ints(); xs = j["xs"].ints();
        m = j["m"].str()[0]; x = (int) j["x"].n(); p = (int) j["p"].n(); qd = j["qd"].n(); off = j["off"].n();
        t = j["t"].n(); a = j["a"].n();
    }
    double dbl(size_t i) const {
        if (m == 'o') return ordf(d[i]);
        if (m == 'l') return (double) off + (double) d[i] * 0.17328679513998632735;
        double v = (double) d[i];
        if (!q.empty()) { double r = (double) qd / (double) q[i]; v *= p == 4 ? r : std::pow(r, p / 4.0); }
        return std::ldexp(v, x + (xs.empty() ? 0 : (int) xs[i]));
    }
    float flt(size_t i) const { return m == 'o' ? ordf(d[i]) : (float) dbl(i); }
    bool matches(size_t i, float got) const {
        if (m == 'o') {
            float e = ordf(d[i]);
            if (t > 0 && e == 0.0f) return got == 0.0f;   // either zero
            return fbits(got) == fbits(e);
        }
        double e = dbl(i);
        if (std::isnan(got)) return false;
        if (m == 'l') return got == (float) e;
        if (t == 0 && a == 0 && q.empty() && m == 'i') {
            return (double) got == (double) (float) e;
        }
        if (std::isinf(got)) return false;
        double tol = std::fabs(e) * t * 1e-6 + std::ldexp((double) a * 1e-6, x) + (q.empty() && xs.empty() ? 0.0 : (double) FLT_MIN);
        return std::fabs((double) got - e) <= tol;
    }
};

// Minimal JSON reader for the behaviours printed by TLC.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <stdexcept>

struct J {
    enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
    bool b = false;
    long long i = 0;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;

    bool has(const char *k) const { for (auto &p : o) if (p.first == k) return true; return false; }
    const J &operator[](const char *k) const {
        for (auto &p : o) if (p.first == k) return p.second;
        throw std::runtime_error(std::string("json: no key ") + k);
    }
    const J &operator[](size_t k) const { return a.at(k); }
    size_t size() const { return t == ARR ? a.size() : o.size(); }
    long long n() const { if (t != NUM) throw std::runtime_error("json: number expected"); return i; }
    const std::string &str() const { if (t != STR) throw std::runtime_error("json: string expected"); return s; }
    std::vector<long long> ints() const { std::vector<long long> r; for (auto &x : a) r.push_back(x.n()); return r; }
    std::vector<unsigned> u32() const { std::vector<unsigned> r; for (auto &x : a) r.push_back((unsigned)x.n()); return r; }
};

struct JP {
    const char *p, *e;
    void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) p++; }
    [[noreturn]] void fail(const char *m) { throw std::runtime_error(std::string("json: ") + m + " at: " + std::string(p, std::min(e, p + 40))); }
    J val() {
        ws();
        J r;
        if (p >= e) fail("eof");
        if (*p == '{') {
            r.t = J::OBJ; p++; ws();
            if (*p == '}') { p++; return r; }
            for (;;) {
                ws(); J k = val(); ws(); if (*p != ':') fail("colon"); p++;
                J v = val(); r.o.emplace_back(k.s, std::move(v)); ws();
                if (*p == ',') { p++; continue; }
                if (*p == '}') { p++; return r; }
                fail("object");
            }
        }
        if (*p == '[') {
            r.t = J::ARR; p++; ws();
            if (*p == ']') { p++; return r; }
            for (;;) {
                r.a.push_back(val()); ws();
                if (*p == ',') { p++; continue; }
                if (*p == ']') { p++; return r; }
                fail("array");
            }
        }
        if (*p == '"') {
            r.t = J::STR; p++;
            while (p < e && *p != '"') {
                if (*p == '\\') { p++; switch (*p) { case 'n': r.s += '\n'; break; case 't': r.s += '\t'; break;
                    case 'r': r.s += '\r'; break; case 'u': { r.s += (char) strtol(std::string(p + 1, p + 5).c_str(), 0, 16); p += 4; break; }
                    default: r.s += *p; } p++; }
                else r.s += *p++;
            }
            p++; return r;
        }
        if (!strncmp(p, "true", 4)) { r.t = J::BOOL; r.b = true; p += 4; return r; }
        if (!strncmp(p, "false", 5)) { r.t = J::BOOL; r.b = false; p += 5; return r; }
        if (!strncmp(p, "null", 4)) { p += 4; return r; }
        char *q; r.t = J::NUM; r.i = strtoll(p, &q, 10); if (q == p) fail("value"); p = q; return r;
    }
};
inline J jparse(const std::string &s) { JP q{s.data(), s.data() + s.size()}; return q.val(); }

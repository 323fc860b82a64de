// Plan: what one simulated run does. Parsed in the server process (plain std containers, never in the simulated heap).
#pragma once
#include <map>
#include <string>
#include <vector>
#include <cstdint>
#include "rt.h"

struct KV {
    std::map<std::string, std::string> m;

    bool has(const char *k) const { return m.count(k); }

    std::string s(const char *k, const char *d = "") const {
        auto i = m.find(k);
        return i == m.end() ? d : i->second;
    }

    long i(const char *k, long d = 0) const {
        auto i = m.find(k);
        return i == m.end() ? d : strtol(i->second.c_str(), nullptr, 10);
    }

    double d(const char *k, double d = 0) const {
        auto i = m.find(k);
        return i == m.end() ? d : strtod(i->second.c_str(), nullptr);
    }

    std::vector<double> v(const char *k) const {
        std::vector<double> r;
        auto i = m.find(k);
        if (i == m.end()) return r;
        const char *p = i->second.c_str();
        while (*p) {
            char *e;
            double x = strtod(p, &e);
            if (e == p) break;
            r.push_back(x);
            p = *e ? e + 1 : e;
        }
        return r;
    }
};

struct FaultSpec {
    enum Kind {
        ALLOC, CBTHROW, CBVAL, NEST, STALL, YIELD, COPYTHROW, BUILDERTHROW, CLOCK, BADRET, SLOW
    } kind;
    uint64_t n = 1, count = 1, minsize = 0;
    int type = 0;
    bool persist = false;
    int which = -1; // which callback (p, q, w); -1: all
    double value = 0;
    std::vector<int> steps;
    std::string val;
};

struct StepSpec {
    int id = 0, phase = 0, tid = 0, obj = -1;
    std::string op;
    KV a;
    std::vector<FaultSpec> faults;
    std::vector<int> after; // steps of other threads that have to be done before
    bool awaited = false;
    int done = 0;
};

struct ObjSpec {
    int id = 0;
    std::string kind, scal;
    KV a;
};

struct Plan {
    rt::Config cfg;
    KV cfgkv;
    std::vector<ObjSpec> objs;      // index = id
    std::vector<ObjSpec> builders;  // index = id
    std::vector<StepSpec> steps;    // index = id
    std::vector<std::pair<uint64_t, int>> sw;
};

// Common part of the conformance drivers: tiny JSON, case runner, trace emission.
// A driver executes the operations of a case on the real library and emits one event per
// operation (the operation record itself plus the field "out": what was observed).
#pragma once
#include <map>
#include <string>
#include <vector>
#include <memory>
#include <functional>
#include <stdexcept>
#include <cstdint>
#include <cstdio>

struct J
{
    enum T { Null, Bool, Int, Str, Arr, Obj } t = Null;
    long long i = 0;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;
    J() {}
    J(bool b) : t(Bool), i(b) {}
    J(int v) : t(Int), i(v) {}
    J(unsigned v) : t(Int), i(v) {}
    J(long v) : t(Int), i(v) {}
    J(long long v) : t(Int), i(v) {}
    J(unsigned long v) : t(Int), i((long long)v) {}
    J(const char* v) : t(Str), s(v) {}
    J(const std::string& v) : t(Str), s(v) {}
    J(std::string_view v) : t(Str), s(v) {}
    static J arr() { J j; j.t = Arr; return j; }
    static J obj() { J j; j.t = Obj; return j; }
    J& push(J v) { t = Arr; a.push_back(std::move(v)); return *this; }
    J& set(const std::string& k, J v)
    {
        t = Obj;
        for (auto& p : o) if (p.first == k) { p.second = std::move(v); return *this; }
        o.emplace_back(k, std::move(v));
        return *this;
    }
    bool has(const std::string& k) const { for (auto& p : o) if (p.first == k) return true; return false; }
    const J& operator[](const std::string& k) const
    {
        for (auto& p : o) if (p.first == k) return p.second;
        throw std::runtime_error("driver: missing field " + k);
    }
    std::string str(const std::string& k, const std::string& d = "") const { return has(k) ? (*this)[k].s : d; }
    long long num(const std::string& k, long long d = 0) const { return has(k) ? (*this)[k].i : d; }
    std::string dump() const;
    static J parse(const std::string& s);
};

std::string hexOf(const std::string_view& s);
std::string unhex(const std::string& s);
J bytesOf(const std::string_view& s);          // array of ints
std::string bytesTo(const J& a);

using Emit = std::function<void(const J& ev)>;
// Runs one case: receives its JSON object (fields id, ops, ...), calls emit once per operation.
using CaseFn = std::function<void(const J& c, const Emit& emit)>;
std::map<std::string, CaseFn>& registry();
struct Reg { Reg(const char* n, CaseFn f) { registry()[n] = std::move(f); } };

// Calls f, mapping exceptions to {"err": name}
J guarded(const std::function<J()>& f);
std::string tmpDir();                          // scratch dir of this run (removed by the parent)

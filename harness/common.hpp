// Line protocol shared by all drivers: one JSON case per input line, one JSON observation per output line.
#pragma once
#define RAPIDJSON_HAS_STDSTRING 1
#include <rapidjson/document.h>
#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <string>
#include <unistd.h>
#include <dal/platform/platform.hpp>
#include <dal/string/strings.hpp>
#include <dal/math/vectors.hpp>
#include <dal/utilities/exceptions.hpp>

using JV = rapidjson::Value;

struct Out {
    rapidjson::StringBuffer sb;
    rapidjson::Writer<rapidjson::StringBuffer> w;
    Out() : w(sb) { w.StartObject(); }
    void key(const char* k) { w.Key(k); }
    void num(double d) {
        if (std::isnan(d)) w.String("nan");
        else if (std::isinf(d)) w.String(d > 0 ? "inf" : "-inf");
        else if (d == std::floor(d) && std::fabs(d) < 9e15) w.Int64(static_cast<int64_t>(d));
        else w.Double(d);
    }
    void kv(const char* k, double d) { key(k); num(d); }
    void kv(const char* k, int i) { key(k); w.Int(i); }
    void kv(const char* k, long long i) { key(k); w.Int64(i); }
    void kv(const char* k, size_t i) { key(k); w.Int64(static_cast<int64_t>(i)); }
    void kv(const char* k, bool b) { key(k); w.Bool(b); }
    void kv(const char* k, const char* s) { key(k); w.String(s); }
    void kv(const char* k, const std::string& s) { key(k); w.String(s.c_str(), s.size()); }
    void kv(const char* k, const Dal::String_& s) { key(k); w.String(s.c_str(), s.size()); }
    template <class C> void kvs(const char* k, const C& c) {
        key(k);
        w.StartArray();
        for (auto x : c) num(static_cast<double>(x));
        w.EndArray();
    }
    void arr(const char* k) { key(k); w.StartArray(); }
    void end() { w.EndArray(); }
};

inline std::string S(const JV& v) { return std::string(v.GetString(), v.GetStringLength()); }
inline Dal::String_ DS(const JV& v) { return Dal::String_(std::string(v.GetString(), v.GetStringLength())); }
inline double D(const JV& v) {
    if (v.IsString()) {
        const std::string s = S(v);
        if (s == "inf") return std::numeric_limits<double>::infinity();
        if (s == "-inf") return -std::numeric_limits<double>::infinity();
        return std::numeric_limits<double>::quiet_NaN();
    }
    return v.GetDouble();
}
inline int I(const JV& v) { return v.GetInt(); }
inline bool B(const JV& v) { return v.GetBool(); }

using handler_t = std::function<void(const JV&, Out&)>;

// runs f; true if it threw
template <class F> bool Throws(F f) {
    try { f(); return false; } catch (const std::exception&) { return true; }
}

inline int RunDriver(const std::map<std::string, handler_t>& ops) {
    std::ios::sync_with_stdio(false);
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        rapidjson::Document doc;
        doc.Parse<rapidjson::kParseFullPrecisionFlag>(line.c_str());
        if (doc.HasParseError()) { fprintf(stderr, "bad case\n"); return 7; }
        std::string text;
        {
            Out out;
            bool ok = true;
            std::string err;
            const std::string op = S(doc["op"]);
            auto p = ops.find(op);
            if (p == ops.end()) { fprintf(stderr, "unknown op %s\n", op.c_str()); return 7; }
            try { p->second(doc, out); }
            catch (const std::exception& e) { ok = false; err = e.what(); }
            if (ok) { out.w.EndObject(); text = out.sb.GetString(); }
            else {
                Out o2;
                o2.kv("exc", err.substr(0, 200));
                o2.w.EndObject();
                text = o2.sb.GetString();
            }
        }
        text += "\n";
        size_t off = 0;
        while (off < text.size()) {
            ssize_t k = write(1, text.data() + off, text.size() - off);
            if (k <= 0) return 8;
            off += static_cast<size_t>(k);
        }
    }
    return 0;
}

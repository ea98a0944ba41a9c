// Driver for dictionaries and text comparison.
#include "common.hpp"
#include "sobolstub.hpp"
#include <dal/platform/platform.hpp>
#include <dal/math/cell.hpp>
#include <dal/math/cellutils.hpp>
#include <dal/string/strings.hpp>
#include <dal/string/stringutils.hpp>
#include <dal/time/date.hpp>
#include <dal/time/dateutils.hpp>
#include <dal/time/datetime.hpp>
#include <dal/time/datetimeutils.hpp>
#include <dal/utilities/dictionary.hpp>
using namespace Dal;
namespace {
    Cell_ AsCell(const JV& v) {
        const std::string t = S(v["t"]);
        if (t == "n") return Cell_(D(v["v"]));
        if (t == "b") return Cell_(B(v["v"]));
        if (t == "s") return Cell_(DS(v["v"]));
        if (t == "d") return Cell_(Date_(I(v["v"][0]), I(v["v"][1]), I(v["v"][2])));
        if (t == "dt") return Cell_(DateTime_(Date_(I(v["v"][0]), I(v["v"][1]), I(v["v"][2])), I(v["v"][3]) / 3600, I(v["v"][3]) / 60 % 60, I(v["v"][3]) % 60));
        return Cell_();
    }
    std::string Show(const Cell_& c) {
        char b[60];
        if (Cell::IsEmpty(c)) return "blank";
        if (Cell::IsBool(c)) return Cell::ToBool(c) ? "b:true" : "b:false";
        if (Cell::IsDate(c)) { auto d = Cell::ToDate(c); int y, m, e; std::snprintf(b, sizeof b, "d:%d-%d-%d", Date::Year(d), Date::Month(d), Date::Day(d)); (void) y; (void) m; (void) e; return b; }
        if (Cell::IsDateTime(c)) { auto x = Cell::ToDateTime(c); auto d = x.Date(); std::snprintf(b, sizeof b, "dt:%d-%d-%d+%ld", Date::Year(d), Date::Month(d), Date::Day(d), std::lround(x.Frac() * 86400)); return b; }
        if (Cell::IsString(c)) return std::string("s:") + Cell::ToString(c).c_str();
        std::snprintf(b, sizeof b, "n:%.17g", Cell::ToDouble(c));
        return b;
    }
    void List(Out& out, const char* k, const Dictionary_& d) {
        out.arr(k);
        for (auto& kv : d) { out.w.StartArray(); out.w.String(kv.first.c_str()); out.w.String(Show(kv.second).c_str()); out.w.EndArray(); }
        out.end();
    }
}
static void Dict(const JV& c, Out& out) {
    Dictionary_ d;
    out.arr("s");
    for (auto& h : c["h"].GetArray()) {
        out.w.StartObject();
        const String_ key = DS(h["key"]);
        if (S(h["op"]) == "I") out.kv("ok", !Throws([&] { d.Insert(key, AsCell(c["vals"][static_cast<rapidjson::SizeType>(I(h["v"]) - 1)])); }));
        else {
            out.kv("has", d.Has(key));
            out.kv("throws", Throws([&] { (void) d.At(key); }));
            out.kv("opt", Show(d.At(key, true)));
            out.kv("def", Dictionary::Extract(d, key, [](const Cell_&) { return 1; }, 2));
            out.kv("xthrows", Throws([&] { (void) Dictionary::Extract(d, key, [](const Cell_&) { return 1; }); }));
        }
        out.kv("n", d.Size());
        out.w.EndObject();
    }
    out.end();
    List(out, "d", d);
    String_ text = Dictionary::ToString(d);
    out.kv("text", text);
    Dictionary_ back;
    if (!Throws([&] { back = Dictionary::FromString(text); })) List(out, "back", back);
    else out.kv("back", "rejected");
}
static void Parse(const JV& c, Out& out) {
    Dictionary_ d;
    const bool ok = !Throws([&] { d = Dictionary::FromString(DS(c["text"])); });
    out.kv("ok", ok);
    if (ok) List(out, "d", d);
}
static void Spell(const JV& c, Out& out) {
    const String_ s = DS(c["s"]), t = DS(c["t"]);
    out.kv("same", s == t);
    out.kv("lt", s < t);
    out.kv("gt", t < s);
    out.kv("c", String::Condensed(s));
    out.kv("eqv", String::Equivalent(s, t.c_str()));
}
static void Names(const JV& c, Out& out) {
    String_ s = DS(c["from"]);
    out.arr("names");
    for (int i = 0; i < I(c["n"]); ++i) { s = String::NextName(s); out.w.String(s.c_str()); }
    out.end();
}
int main() { return RunDriver({{"dict", Dict}, {"parse", Parse}, {"spell", Spell}, {"names", Names}}); }

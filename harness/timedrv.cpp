// Driver for the calendar, date-time, day-count, holiday, increment and schedule suites.
#include "common.hpp"
#include "sobolstub.hpp"
#include <dal/time/date.hpp>
#include <dal/time/dateutils.hpp>
#include <dal/time/datetime.hpp>
#include <dal/time/datetimeutils.hpp>
#include <dal/time/daybasis.hpp>
#include <dal/time/periodlength.hpp>
#include <dal/currency/currency.hpp>
#include <dal/time/holidays.hpp>
#include <dal/time/dateincrement.hpp>
#include <dal/time/schedules.hpp>
#include <dal/time/calendars/init.hpp>
#include <dal/math/cell.hpp>
#include <dal/math/cellutils.hpp>
#include <fstream>
#include <sstream>

using namespace Dal;

static Date_ X(int n) { return Date::FromExcel(n); }
static int N(const Date_& d) { return d.IsValid() ? Date::ToExcel(d) : 0; }

static void Day(const JV& c, Out& o) {
    const int n = I(c["n"]), y = I(c["y"]), m = I(c["m"]), d = I(c["d"]);
    const Date_ x = X(n);
    o.kv("valid", x.IsValid());
    o.kv("y", (int)Date::Year(x));
    o.kv("m", (int)Date::Month(x));
    o.kv("d", (int)Date::Day(x));
    o.kv("w", (int)Date::DayOfWeek(x));
    o.kv("we", Date::IsWeekEnd(x));
    o.kv("n", Date::ToExcel(x));
    o.kv("nv", NumericValueOf(x));
    const String_ iso = Date::ToString(x);
    o.kv("iso", iso);
    const Date_ f(y, m, d);
    o.kv("ymd", f.IsValid() ? Date::ToExcel(f) : -1);
    o.kv("isIso", Date::IsDateString(iso));
    o.kv("fromIso", N(Date::FromString(iso)));
    char us[40];
    sprintf(us, "%d/%d/%d", m, d, y);
    o.kv("fromUs", N(Date::FromString(String_(us))));
    sprintf(us, "%02d/%02d/%04d", m, d, y);
    o.kv("fromUs2", N(Date::FromString(String_(us))));
    o.kv("eom", N(Date::EndOfMonth(x)));
    o.kv("dim", (int)Date::DaysInMonth(y, m));
    if (!B(c["last"])) {
        const Date_ t = X(n + 1);
        Date_ up(x);
        ++up;
        Date_ down(t);
        --down;
        o.kv("up", N(up));
        o.kv("down", N(down));
        o.kv("add1", N(x.AddDays(1)));
        o.kv("sub1", N(t.AddDays(-1)));
        o.kv("rel", (x < t) && (x <= t) && (t > x) && (t >= x) && (x != t) && !(x == t) && !(t < x) && !(t <= x) &&
                        !(x > t) && !(x >= t) && (x == f) && (x <= f) && (x >= f) && !(x < f) && !(x != f));
        o.kv("diff", t - x);
        const Date_ base = X(25569);
        o.kv("diff0", x - base);
        o.kv("ndiff0", base - x);
        o.kv("addAll", N(base.AddDays(n - 25569)));
        o.kv("subAll", N(x.AddDays(25569 - n)));
    }
}

static void Ymd(const JV& c, Out& o) {
    const Date_ f(I(c["y"]), I(c["m"]), I(c["d"]));
    o.kv("n", f.IsValid() ? Date::ToExcel(f) : 0);
}

static void Xl(const JV& c, Out& o) {
    const Date_ f = X(I(c["n"]));
    o.kv("n", f.IsValid() ? Date::ToExcel(f) : 0);
}


static void Months(const JV& c, Out& o) {
    const Date_ x = X(I(c["n"]));
    o.arr("a");
    for (auto& k : c["k"].GetArray()) o.w.Int(N(Date::AddMonths(x, I(k), false)));
    o.end();
    o.arr("a0");   // the flag's default
    for (auto& k : c["k"].GetArray()) o.w.Int(N(Date::AddMonths(x, I(k))));
    o.end();
    o.arr("e");
    for (auto& k : c["k"].GetArray()) o.w.Int(N(Date::AddMonths(x, I(k), true)));
    o.end();
    o.kv("eom", N(Date::EndOfMonth(x)));
    o.kv("dim", (int)Date::DaysInMonth(I(c["y"]), I(c["m"])));
    o.key("nm");
    o.w.StartObject();
    for (auto& p : c["nm"].GetObject()) {
        o.key(p.name.GetString());
        o.w.Int(N(Date::NominalMaturity(x, PeriodLength_(DS(p.name)), Ccy_("USD"))));
    }
    o.w.EndObject();
}

static const long long DAY_MS = 86400000LL;
static void Clock(const JV& c, Out& o) {
    const Date_ d = X(I(c["n"]));
    const int h = I(c["h"]), m = I(c["m"]), s = I(c["sec"]), sod = I(c["s"]), off = I(c["off"]);
    const DateTime_ t(d, h, m, s);
    o.kv("date", N(t.Date()));
    o.kv("h", DateTime::Hour(t));
    o.kv("m", DateTime::Minute(t));
    o.kv("t", DateTime::TimeString(t));
    const String_ text = DateTime::ToString(t);
    o.kv("txt", text);
    o.kv("isdt", DateTime::IsDateTimeString(text));
    o.kv("back", DateTime::FromString(text) == t);
    const long long days = N(d) - 25569, ms = DAY_MS * days + 1000LL * sod;
    o.kv("ms", (long long)(DateTime::MSec(t) - DAY_MS * days));
    o.kv("fromms", DateTime_(ms) == t);
    const DateTime_ u(ms + off);
    o.kv("ums", (long long)(DateTime::MSec(u) - DAY_MS * days));
    o.kv("uh", DateTime::Hour(u));
    o.kv("um", DateTime::Minute(u));
    o.kv("ut", DateTime::TimeString(u));
    o.kv("udate", N(u.Date()));
    o.kv("secs", std::floor(t.Frac() * 86400. + 0.5));
    o.kv("num", std::floor((NumericValueOf(t) - N(d)) * 86400. + 0.5));
    if (off) o.kv("ord", t < u && u > t && t <= u && u >= t && t != u && !(u < t) && !(t == u) && !(t >= u) && !(u <= t));
    if (!B(c["last"])) {
        const DateTime_ v(d, (sod + 1) / 3600, ((sod + 1) / 60) % 60, (sod + 1) % 60);
        o.kv("next", t < v && u < v && !(v < t) && t != v && t <= v && v > u && v >= u);
        o.kv("one", std::fabs((v - t) * 86400. - 1.) < 1e-5 && std::fabs((t - v) * 86400. + 1.) < 1e-5);
    }
}
static void Shift(const JV& c, Out& o) {
    DateTime_ t(X(I(c["n"])), I(c["a"]) / 16.0);
    const double k = I(c["k"]) / 16.0;
    DateTime_ u = t + k;
    o.kv("n", N(u.Date()));
    o.kv("f", u.Frac() * 16.);
    o.kv("n0", N(t.Date()));
    o.kv("f0", t.Frac() * 16.);
    o.kv("d", (u - t) * 16.);
    t += k;
    o.kv("same", t == u);
    // an inexact shift keeps the elapsed time
    DateTime_ b(X(I(c["n"])), I(c["a"]) / 16.0);
    const double g = I(c["k"]) / 86400.0 * 977;
    const DateTime_ e = b + g;
    o.kv("g", std::fabs((e - b) - g) < 1e-9 && e.IsValid() && e.Frac() >= 0.0);
}
static void Cmp(const JV& c, Out& o) {
    auto mk = [](const Date_& d, int s) { return DateTime_(d, s / 3600, (s / 60) % 60, s % 60); };
    const DateTime_ a = mk(X(I(c["n1"])), I(c["s1"])), b = mk(X(I(c["n2"])), I(c["s2"]));
    o.kv("lt", a < b); o.kv("le", a <= b); o.kv("gt", a > b); o.kv("ge", a >= b); o.kv("eq", a == b); o.kv("ne", a != b);
    o.kv("d", std::floor((a - b) * 86400. + 0.5));
}
static void Hms(const JV& c, Out& o) {
    o.kv("ok", !Throws([&] { DateTime_ t(X(44000), I(c["h"]), I(c["m"]), I(c["s"])); }));
}
static void Txt(const JV& c, Out& o) {
    DateTime_ t;
    const bool ok = !Throws([&] { t = DateTime::FromString(DS(c["t"])); });
    o.kv("ok", ok);
    if (ok) { o.kv("n", N(t.Date())); o.kv("sec", std::floor(t.Frac() * 86400. + 0.5)); }
}
static void Frac(const JV& c, Out& o) {
    o.kv("ok", !Throws([&] { DateTime_ t(X(44000), I(c["a"]) / 16.0); }));
}
static void Ms(const JV& c, Out& o) {
    const long long ms = DAY_MS * (I(c["n"]) - 25569) + I(c["ms"]);
    const DateTime_ t(ms);
    o.kv("n", N(t.Date()));
    o.kv("ms", (long long)(DateTime::MSec(t) - DAY_MS * (I(c["n"]) - 25569)));
    o.kv("t", DateTime::TimeString(t));
    o.kv("self", DateTime_(DateTime::MSec(t)) == t);
}

static void Basis(const JV& c, Out& o) {
    const Date_ a = X(I(c["n1"])), b = X(I(c["n2"]));
    for (const char* nm : {"ACT_365F", "ACT/365F", "ACT_360", "ACT/360", "ACT_ACT", "ACT/ACT", "BOND", "30/360"})
        o.kv(nm, DayBasis_(nm)(a, b, nullptr));
    o.arr("L");
    for (auto& x : c["ctx"].GetArray()) {
        const DayBasis::Context_ ctx(false, a, X(I(x["e"])), I(x["m"]));
        o.num(DayBasis_("ACT_365L")(a, b, &ctx));
    }
    o.end();
    o.kv("noctx", Throws([&] { DayBasis_("ACT/365L")(a, b, nullptr); }));
}

static Vector_<Date_> Dates(const JV& a) {
    Vector_<Date_> r;
    for (auto& x : a.GetArray()) r.push_back(X(I(x)));
    return r;
}
// each case of a holiday history uses its own center names, so that cases do not see each other
static int theHolCase = 0;
static String_ Prefixed(const std::string& nm) { return String_("P" + std::to_string(theHolCase) + "." + nm); }
static String_ Joined(const JV& a) {
    std::string r;
    for (auto& x : a.GetArray()) r += (r.empty() ? "" : " ") + std::string(Prefixed(S(x)).c_str());
    return String_(r);
}
static void Bools(Out& o, const char* k, const std::vector<bool>& v) { o.arr(k); for (bool b : v) o.w.Bool(b); o.end(); }
static void Hol(const JV& c, Out& o) {
    ++theHolCase;
    o.arr("r");
    for (auto& s : c["steps"].GetArray()) {
        const std::string op = S(s["op"]);
        o.w.StartObject();
        bool ok = true;
        if (op == "add")
            ok = !Throws([&] { Holidays::AddCenter(Prefixed(S(s["c"])), Dates(s["h"]), Dates(s["w"])); });
        else {
            const int lo = I(s["lo"]), hi = I(s["hi"]);
            std::unique_ptr<Holidays_> h;
            ok = !Throws([&] { h.reset(new Holidays_(Joined(s["c"]))); });
            if (ok && op == "q") {
                std::vector<bool> bus, hol, ww;
                std::vector<int> nx, pv;
                for (int n = lo; n <= hi; ++n) {
                    hol.push_back(h->IsHoliday(X(n)));
                    ww.push_back(h->IsWorkWeekends(X(n)));
                    nx.push_back(N(Holidays::NextBus(*h, X(n))));
                    pv.push_back(N(Holidays::PrevBus(*h, X(n))));
                    bus.push_back(nx.back() == n && pv.back() == n);
                }
                Bools(o, "bus", bus); Bools(o, "hol", hol); Bools(o, "ww", ww);
                o.kvs("nx", nx); o.kvs("pv", pv);
            }
            if (ok && op == "n") {
                const CountBusDays_ count(*h);
                o.arr("n");
                for (int i = lo; i <= hi; ++i) {
                    o.w.StartArray();
                    for (int j = lo; j <= hi; ++j) o.w.Int(count(X(i), X(j)));
                    o.end();
                }
                o.end();
            }
        }
        o.kv("ok", ok);
        o.w.EndObject();
    }
    o.end();
}
// registered calendars: their data, and the answers on a range
static void HolData(const JV& c, Out& o) {
    Calendars_::Init();
    const auto h = Holidays::OfCenter(DS(c["c"]));
    std::vector<int> hs, ws;
    for (auto& d : h->holidays_) hs.push_back(N(d));
    for (auto& d : h->workWeekends_) ws.push_back(N(d));
    o.kvs("h", hs); o.kvs("w", ws);
}
static void HolRange(const JV& c, Out& o) {
    Calendars_::Init();
    const Holidays_ h(DS(c["c"]));
    const CountBusDays_ count(h);
    std::vector<int> nx, pv, ct;
    const int lo = I(c["lo"]), hi = I(c["hi"]);
    for (int n = lo; n <= hi; ++n) {
        nx.push_back(N(Holidays::NextBus(h, X(n))));
        pv.push_back(N(Holidays::PrevBus(h, X(n))));
        ct.push_back(count(X(lo), X(n)));
    }
    o.kvs("nx", nx); o.kvs("pv", pv); o.kvs("ct", ct);
}

static rapidjson::Document theSetup;
static void LoadSetup(const char* f) {
    std::ifstream in(f);
    std::stringstream ss;
    ss << in.rdbuf();
    theSetup.Parse(ss.str().c_str());
    for (auto& x : theSetup["centers"].GetArray()) Holidays::AddCenter(DS(x["c"]), Dates(x["h"]), Dates(x["w"]));
}
static void Inc(const JV& c, Out& o) {
    const Date_ x = X(I(c["n"]));
    std::vector<int> f, b;
    for (auto& t : theSetup["texts"].GetArray()) {
        const auto inc = Date::ParseIncrement(DS(t));
        f.push_back(N(x + *inc));
        b.push_back(N(x - *inc));
    }
    o.kvs("f", f); o.kvs("b", b);
    std::vector<int> nb;
    for (int k : {0, 1, 3, 10}) {
        const auto i1 = Date::NBusDays(k, Holidays_("XA XB"));
        nb.push_back(N(x + *i1)); nb.push_back(N(x - *i1));
        const auto i2 = Date::ParseIncrement(String_(std::to_string(k) + "BD;XA XB"));
        nb.push_back(N(x + *i2)); nb.push_back(N(x - *i2));
    }
    o.kvs("nb", nb);
    o.kv("imm", x + *Date::ToIMM(false) == x + *Date::ParseIncrement("IMM") && x - *Date::ToIMM(true) == x - *Date::ParseIncrement("IMM1"));
}
static void BadInc(const JV& c, Out& o) { o.kv("rejected", Throws([&] { Date::ParseIncrement(DS(c["t"])); })); }

static void Sched(const JV& c, Out& o) {
    const Date_ a = X(I(c["start"])), z = X(I(c["end"]));
    const auto inc = Date::ParseIncrement(DS(c["t"]));
    const DateGeneration_ g(B(c["fwd"]) ? "Forward" : "Backward");
    auto put = [&](const char* k, const Schedule_& s) {
        o.arr(k);
        for (auto& d : s) o.w.Int(N(d));
        o.end();
    };
    put("pins", DateGenerate(a, z, inc, g));
    put("un", MakeSchedule(a, Cell_(z), Holidays_("XA"), inc, g, BizDayConvention_("Unadjusted")));
    put("none", MakeSchedule(a, Cell_(z), Holidays::None(), inc, g, BizDayConvention_("Following")));
    put("xa", MakeSchedule(a, Cell_(z), Holidays_("XA"), inc, g, BizDayConvention_("Following")));
    put("xab", MakeSchedule(a, Cell_(z), Holidays_("XB XA"), inc, g));
    o.kv("modf", Throws([&] { MakeSchedule(a, Cell_(z), Holidays_("XA"), inc, g, BizDayConvention_("ModifiedFollowing")); }));
    o.kv("tenorEnd", Throws([&] { MakeSchedule(a, Cell_(String_("1Y")), Holidays_("XA"), inc, g); }));
}
// tenors that do not advance: rejected, never an endless schedule
static void Stuck(const JV& c, Out& o) {
    const auto inc = Date::ParseIncrement(DS(c["t"]));
    o.kv("rejected", Throws([&] { DateGenerate(X(I(c["start"])), X(I(c["end"])), inc, DateGeneration_(B(c["fwd"]) ? "Forward" : "Backward")); }));
}

int main(int argc, char** argv) {
    std::map<std::string, handler_t> ops;
    if (argc > 1) LoadSetup(argv[1]);
    ops["day"] = Day;
    ops["ymd"] = Ymd;
    ops["xl"] = Xl;
    ops["months"] = Months;
    ops["clock"] = Clock;
    ops["shift"] = Shift;
    ops["cmp"] = Cmp;
    ops["hms"] = Hms;
    ops["txt"] = Txt;
    ops["frac"] = Frac;
    ops["ms"] = Ms;
    ops["basis"] = Basis;
    ops["hol"] = Hol;
    ops["holdata"] = HolData;
    ops["holrange"] = HolRange;
    ops["inc"] = Inc;
    ops["badinc"] = BadInc;
    ops["sched"] = Sched;
    ops["stuck"] = Stuck;
    return RunDriver(ops);
}

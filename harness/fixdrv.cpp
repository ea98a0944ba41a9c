// Driver for recorded fixings: environments of fixing accesses, the global store, and queries on histories.
#include "common.hpp"
#include "sobolstub.hpp"
#include <dal/platform/platform.hpp>
#include <dal/indice/fixings.hpp>
#include <dal/indice/index.hpp>
#include <dal/indice/index/equity.hpp>
#include <dal/indice/index/fx.hpp>
#include <dal/indice/index/ir.hpp>
#include <dal/indice/indexparse.hpp>
#include <dal/indice/indexpath.hpp>
#include <dal/indice/parser/equity.hpp>
#include <dal/indice/parser/fx.hpp>
#include <dal/indice/parser/init.hpp>
#include <dal/storage/_repository.hpp>
#include <dal/storage/globals.hpp>
#include <dal/time/date.hpp>
#include <dal/time/datetime.hpp>
#include <deque>
#include <memory>
using namespace Dal;
namespace {
    Handle_<Index_> Make(const JV& d) {
        const std::string k = S(d["k"]);
        if (k == "eq") {
            if (d.HasMember("delay")) { const String_ s = DS(d["delay"]); return Handle_<Index_>(new Index::Equity_(DS(d["n"]), nullptr, &s)); }
            if (d.HasMember("date")) { const Date_ x(I(d["date"][0]), I(d["date"][1]), I(d["date"][2])); return Handle_<Index_>(new Index::Equity_(DS(d["n"]), &x)); }
            return Handle_<Index_>(new Index::Equity_(DS(d["n"])));
        }
        if (k == "fx") return Handle_<Index_>(new Index::Fx_(Ccy_(DS(d["dom"])), Ccy_(DS(d["fgn"]))));
        if (k == "swap") return Handle_<Index_>(new Index::Swap_(Ccy_(DS(d["ccy"])), DS(d["n"])));
        if (k == "eqname") return Handle_<Index_>(Index::EquityParser(DS(d["n"])));
        if (k == "fxname") return Handle_<Index_>(Index::FxParser(DS(d["n"])));
        THROW("unknown kind");
    }
    struct Other_ : Environment_::Entry_ {};
    DateTime_ T(const JV& q) { return DateTime_(Date_(2024, 2, 22).AddDays(I(q) / 4), 0.25 * (I(q) % 4)); }
    void Num(Out& out, double v) { if (v == -Dal::INF) out.w.String("absent"); else out.w.Double(v); }
}
static void Lookup(const JV& c, Out& out) {
    std::vector<Handle_<Index_>> idx;
    for (auto& d : c["idx"].GetArray()) idx.push_back(Make(d));
    std::vector<DateTime_> ts;
    for (auto& t : c["t"].GetArray()) ts.push_back(T(t));
    (void) ObjectAccess_().Erase(String_(""));
    const Environment_* _env = nullptr;
    std::deque<std::unique_ptr<FixingsAccess_>> acc;
    std::deque<std::unique_ptr<Environment::XDecorated_>> dec;
    Other_ other;
    std::unique_ptr<Environment::XDecorated_> outer;
    if (B(c["env"])) outer.reset(new Environment::XDecorated_(_env, other));
    out.arr("names");
    for (auto& i : idx) out.w.String(i->Name().c_str());
    out.end();
    out.arr("s");
    for (auto& h : c["h"].GetArray()) {
        const char op = S(h["op"])[0];
        const String_ name = I(h["i"]) ? DS(c["names"][static_cast<rapidjson::SizeType>(I(h["i"]) - 1)]) : String_();
        std::map<DateTime_, double> vals;
        for (auto& p : h["x"].GetArray()) vals[ts[static_cast<size_t>(I(p[0]) - 1)]] = D(p[1]);
        int n = 0;
        if (op == 'P') { acc.emplace_back(new FixingsAccess_); dec.emplace_back(new Environment::XDecorated_(_env, *acc.back())); dec.emplace_back(new Environment::XDecorated_(_env, other)); }
        else if (op == 'Q') { dec.pop_back(); dec.pop_back(); acc.pop_back(); }
        else if (op == 'R') {
            auto& f = acc.back()->fixings_[name];
            auto all = f.get() ? f->vals_ : std::map<DateTime_, double>();
            for (auto& p : vals) all[p.first] = p.second;
            f = Handle_<Fixings_>(new Fixings_(name, all));
        } else {
            FixHistory_ fh;
            for (auto& p : vals) fh.vals_.insert(fh.vals_.end(), std::make_pair(p.first, p.second));
            n = XGLOBAL::StoreFixings(name, fh, op == 'A');
        }
        out.w.StartObject();
        out.kv("n", n);
        out.arr("past");
        for (auto& i : idx) {
            out.w.StartArray();
            for (auto& t : ts) {
                const double q = Index::PastFixing(_env, i->Name(), t, true);
                double v = -Dal::INF;
                const bool thrown = Throws([&] { v = Index::PastFixing(_env, i->Name(), t); });
                if (thrown != (q == -Dal::INF) || (!thrown && v != q)) out.w.String("quiet and strict lookups differ"); else Num(out, q);
            }
            out.w.EndArray();
        }
        out.end();
        out.arr("fix");
        for (auto& i : idx) {
            out.w.StartArray();
            for (auto& t : ts) {
                double v = -Dal::INF;
                (void) Throws([&] { v = i->Fixing(_env, t); });
                Num(out, v);
            }
            out.w.EndArray();
        }
        out.end();
        out.arr("glob");
        for (auto& i : idx) {
            const FixHistory_ fh = Global::Fixings_().History(i->Name());
            out.w.StartArray();
            const DateTime_* last = nullptr;
            for (auto& p : fh.vals_) {
                int k = 0;
                while (k < static_cast<int>(ts.size()) && !(ts[static_cast<size_t>(k)] == p.first)) ++k;
                out.w.StartArray(); out.w.Int(last && !(*last < p.first) ? -1 : k + 1); out.w.Double(p.second); out.w.EndArray();
                last = &p.first;
            }
            out.w.EndArray();
        }
        out.end();
        out.arr("find");
        for (auto& i : idx) {
            const FixHistory_ fh = Global::Fixings_().History(i->Name());
            out.w.StartArray();
            for (auto& t : ts) {
                const double q = fh.Find(t, true);
                double v = -Dal::INF;
                const bool thrown = Throws([&] { v = fh.Find(t); });
                if (thrown != (q == -Dal::INF) || (!thrown && v != q)) out.w.String("quiet and strict lookups differ"); else Num(out, q);
            }
            out.w.EndArray();
        }
        out.end();
        out.w.EndObject();
    }
    out.end();
    while (!dec.empty()) dec.pop_back();
}
static void Query(const JV& c, Out& out) {
    std::map<DateTime_, double> vals;
    int k = 0;
    const double s = D(c["scale"]);
    const auto& start = c["start"];
    auto when = [&](int j) { return DateTime_(Date_(2024, 2, 22).AddDays((I(start) + j * I(c["unit"])) / 4), 0.25 * ((I(start) + j * I(c["unit"])) % 4)); };
    for (auto& f : c["f"].GetArray()) { ++k; if (f.Size()) vals[when(k)] = s * D(f[0]); }
    std::unique_ptr<IndexPath_> p(new IndexPathHistorical_(vals));
    const auto& q = c["q"];
    const std::pair<double, double> r(s * D(q["lo"]), s * D(q["hi"]));
    out.kv("all", p->AllInRangeProb(when(I(q["from"])), when(I(q["to"])), r, 0.25 * I(q["step"]) * I(c["unit"]), s * D(q["ramp"])));
    double e = 0, f = 0;
    const bool t1 = Throws([&] { e = p->Expectation(when(I(q["at"])), r); });
    const bool t2 = Throws([&] { f = p->FixInRangeProb(when(I(q["at"])), r, s * D(q["ramp"])); });
    out.kv("t1", t1);
    out.kv("t2", t2);
    out.kv("e", e);
    out.kv("p", f);
}
static void Name(const JV& c, Out& out) { out.kv("name", Make(c["d"])->Name()); }
static void Index1(const JV& c, Out& out) {
    IndexParsers_::Init();
    std::unique_ptr<Index_> i(Index::Parse(DS(c["name"])));
    out.kv("got", i.get() != nullptr);
    if (!i) return;
    out.kv("name", std::string(i->Name().c_str()));
    const auto* e = dynamic_cast<const Index::Equity_*>(i.get());
    out.kv("kind", e ? "eq" : dynamic_cast<const Index::Fx_*>(i.get()) ? "fx" : "?");
    auto again = Index::Clone(*i);
    out.kv("clone", again.IsEmpty() ? std::string("none") : std::string(again->Name().c_str()));
    if (e && B(c["del"])) {
        const auto* f = dynamic_cast<const Index::Equity_*>(again.get());
        out.arr("del");
        for (int k = 0; k < 40; k += 3) {
            const DateTime_ t(Date_(2024, 1, 25).AddDays(k), 0.25);
            const Date_ d = e->Delivery(t);
            out.w.Int(d == Date::Maximum() ? -1 : d - t.Date());
            if (!f || f->Delivery(t) != d) out.w.String("the copy differs");
        }
        out.end();
    }
}
int main() { return RunDriver({{"index", Index1}, {"lookup", Lookup}, {"query", Query}, {"name", Name}}); }

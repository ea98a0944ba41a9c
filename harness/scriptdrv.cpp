// Driver for the scripting engine: parse trees, product construction, evaluation in all modes.
#include "common.hpp"
#include "sobolstub.hpp"
#include <dal/script/event.hpp>
#include <dal/script/parser.hpp>
#include <dal/storage/globals.hpp>
#include <dal/time/date.hpp>
#include <dal/time/dateutils.hpp>
#include <dal/time/holidaydata.hpp>
#include <dal/time/holidays.hpp>
#include <dal/math/aad/aad.hpp>
#include <dal/script/visitor/all.hpp>
#include <cstring>
using namespace Dal;
using namespace Dal::Script;
using W = rapidjson::Writer<rapidjson::StringBuffer>;

static void Tree(W& w, const Node_* n);
static void Args(W& w, const char* tag, const Node_* n) {
    w.StartArray();
    w.String(tag);
    for (auto& a : n->arguments_) Tree(w, a.get());
    w.EndArray();
}
static void Num(W& w, double d) {
    if (d == std::floor(d) && std::fabs(d) < 1e15) w.Int64(static_cast<int64_t>(d));
    else w.Double(d);
}
template <class N> static bool Plain(W& w, const char* tag, const Node_* n) {
    if (!dynamic_cast<const N*>(n)) return false;
    Args(w, tag, n);
    return true;
}
template <class N> static bool Comp(W& w, const char* tag, const Node_* n) {
    auto p = dynamic_cast<const N*>(n);
    if (!p) return false;
    w.StartArray();
    w.String(tag);
    Num(w, p->eps_);
    for (auto& a : n->arguments_) Tree(w, a.get());
    w.EndArray();
    return true;
}
// the target name of an assignment or payment
static void Action(W& w, const char* tag, const Node_* n) {
    w.StartArray();
    w.String(tag);
    auto v = dynamic_cast<const NodeVar_*>(n->arguments_[0].get());
    w.String(v ? v->name_.c_str() : "?not-a-variable");
    Tree(w, n->arguments_[1].get());
    w.EndArray();
}
static void Tree(W& w, const Node_* n) {
    if (dynamic_cast<const NodeAssign_*>(n)) return Action(w, "ASSIGN", n);
    if (dynamic_cast<const NodePays_*>(n)) return Action(w, "PAYS", n);
    if (Plain<NodeAdd_>(w, "ADD", n) || Plain<NodeSub_>(w, "SUB", n) || Plain<NodeMulti_>(w, "MUL", n) || Plain<NodeDiv_>(w, "DIV", n) ||
        Plain<NodePow_>(w, "POW", n) || Plain<NodeMax_>(w, "MAX", n) || Plain<NodeMin_>(w, "MIN", n) || Plain<NodeUPlus_>(w, "UPLUS", n) ||
        Plain<NodeUMinus_>(w, "UMINUS", n) || Plain<NodeLog_>(w, "LOG", n) || Plain<NodeSqrt_>(w, "SQRT", n) || Plain<NodeExp_>(w, "EXP", n) ||
        Plain<NodeAnd_>(w, "AND", n) || Plain<NodeOr_>(w, "OR", n) || Plain<NodeNot_>(w, "NOT", n) || Plain<NodeSpot_>(w, "SPOT", n) ||
        Plain<NodeTrue_>(w, "TRUE", n) || Plain<NodeFalse_>(w, "FALSE", n) || Plain<NodeCollect_>(w, "COLLECT", n) ||
        Comp<NodeEqual_>(w, "EQ", n) || Comp<NodeSup_>(w, "GT", n) || Comp<NodeSupEqual_>(w, "GE", n))
        return;
    w.StartArray();
    if (auto p = dynamic_cast<const NodeConst_*>(n)) { w.String("CONST"); Num(w, p->constVal_); }
    else if (auto p = dynamic_cast<const NodeVar_*>(n)) { w.String("VAR"); w.String(p->name_.c_str()); }
    else if (auto p = dynamic_cast<const NodeConstVar_*>(n)) { w.String("KVAR"); w.String(p->name_.c_str()); }
    else if (auto p = dynamic_cast<const NodeIf_*>(n)) {
        w.String("IF");
        const int sz = static_cast<int>(n->arguments_.size());
        const int fe = p->firstElse_ == -1 ? sz : p->firstElse_;
        Tree(w, n->arguments_[0].get());
        w.StartArray();
        for (int i = 1; i < fe; ++i) Tree(w, n->arguments_[i].get());
        w.EndArray();
        if (p->firstElse_ != -1) {
            w.StartArray();
            for (int i = fe; i < sz; ++i) Tree(w, n->arguments_[i].get());
            w.EndArray();
        }
    } else w.String("?");
    w.EndArray();
}
static void Parse(const JV& c, Out& o) {
    std::map<String_, double> k;
    if (c.HasMember("consts"))
        for (auto& m : c["consts"].GetObject()) k[DS(m.name)] = D(m.value);
    Parser_ p(k);
    Event_ e = p.Parse(DS(c["text"]));
    o.arr("t");
    for (auto& s : e) Tree(o.w, s.get());
    o.end();
}

// ------------------------------------------------------------------------------------------------------------
// evaluation: every mode, every path, and the same evaluator used again, copied, moved and assigned
static double Value(double x) { return x; }
static double Value(const AAD::Number_& x) { return x.value(); }
static void Alias(const AAD::Scenario_<>& from, AAD::Scenario_<>* to) { *to = from; }
static void Alias(const AAD::Scenario_<>& from, AAD::Scenario_<AAD::Number_>* to) {
    to->Resize(from.size());
    for (size_t i = 0; i < from.size(); ++i) { (*to)[i].spot_ = AAD::Number_(from[i].spot_); (*to)[i].numeraire_ = AAD::Number_(from[i].numeraire_); }
}
static void StartTape(double) {}
static void StartTape(const AAD::Number_&) { AAD::Number_::Tape()->Rewind(); }
using Vals = std::vector<std::vector<double>>;
static bool Same(const std::vector<double>& a, const std::vector<double>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false;
    return true;
}
struct Interp {
    template <class T_, class E_> static void Go(const ScriptProduct_& p, const AAD::Scenario_<T_>& s, E_& e) { p.Evaluate(s, e); }
};
struct Comp_ {
    template <class T_, class E_> static void Go(const ScriptProduct_& p, const AAD::Scenario_<T_>& s, E_& e) { p.EvaluateCompiled(s, e); }
};
template <class T_, class G_, class E_> static std::vector<double> One(const ScriptProduct_& p, const AAD::Scenario_<>& sc, E_& e) {
    StartTape(T_(0.0));
    AAD::Scenario_<T_> s;
    Alias(sc, &s);
    G_::template Go<T_>(p, s, e);
    std::vector<double> r;
    for (const auto& v : e.VarVals()) r.push_back(Value(v));
    return r;
}
// refresh redoes the preparation of the product (PreProcess, Compile)
template <class T_, class G_, class B_, class F_>
static Vals Run(const ScriptProduct_& p, const std::vector<AAD::Scenario_<>>& sc, B_ make, F_ refresh, std::string* note) {
    StartTape(T_(0.0));
    auto e = make();
    Vals r;
    for (auto& s : sc) r.push_back(One<T_, G_>(p, s, e));
    auto expect = [&](size_t i, const std::vector<double>& v, const char* what) {
        if (!Same(r[i], v) && note->empty()) *note = std::string(what) + " changes the values on path " + std::to_string(i);
    };
    const size_t n = sc.size();
    for (size_t i = n; i-- > 0;) expect(i, One<T_, G_>(p, sc[i], e), "an earlier evaluation");
    for (size_t i = 0; i < n; ++i) { auto f = make(); expect(i, One<T_, G_>(p, sc[i], f), "reuse of an evaluator"); }
    {
        auto f(e);
        for (size_t i = 0; i < n; ++i) { expect(i, One<T_, G_>(p, sc[i], f), "copying the evaluator"); expect(n - 1 - i, One<T_, G_>(p, sc[n - 1 - i], e), "having been copied"); }
        auto g = make();
        g = f;
        for (size_t i = 0; i < n; ++i) expect(i, One<T_, G_>(p, sc[i], g), "assigning the evaluator");
        auto h(std::move(f));
        for (size_t i = 0; i < n; ++i) expect(i, One<T_, G_>(p, sc[i], h), "moving the evaluator");
        auto k = make();
        k = std::move(g);
        for (size_t i = 0; i < n; ++i) expect(i, One<T_, G_>(p, sc[i], k), "move-assigning the evaluator");
    }
    refresh();
    auto e2 = make();
    for (size_t i = 0; i < n; ++i) expect(i, One<T_, G_>(p, sc[i], e2), "preparing the product again");
    return r;
}
static void Eval(const JV& c, Out& o) {
    const Date_ today(2024, 3, 15);
    Global::Dates_::SetEvaluationDate(today);
    Vector_<Cell_> dates;
    Vector_<String_> texts;
    for (auto& m : c["consts"].GetObject()) { dates.push_back(Cell_(DS(m.name))); texts.push_back(DS(m.value)); }
    int back = c["past"].Size();
    for (auto& t : c["past"].GetArray()) { dates.push_back(Cell_(today.AddDays(-back--))); texts.push_back(DS(t)); }
    int k = 0;
    for (auto& t : c["events"].GetArray()) { dates.push_back(Cell_(today.AddDays(k))); texts.push_back(DS(t)); k += 91; }
    std::vector<AAD::Scenario_<>> sc;
    for (auto& p : c["paths"].GetArray()) {
        AAD::Scenario_<> s(k / 91);
        for (int i = 0; i < k / 91; ++i) { s[i].spot_ = D(p[i][0]); s[i].numeraire_ = D(p[i][1]); }
        sc.push_back(s);
    }
    const double eps = D(c["eps"]);
    for (auto& mv : c["modes"].GetArray()) {
        const std::string m = S(mv);
        const bool compiled = m[0] == 'c', fuzzy = m[0] == 'f', num = m.back() == 'n', dom = m.find('d') != std::string::npos;
        std::string err, note;
        Vals r;
        Vector_<String_> names;
        try {
            ScriptProduct_ p(dates, texts);
            int depth = 0;
            auto prep = [&]() { depth = static_cast<int>(p.PreProcess(fuzzy, !dom)); if (compiled) p.Compile(); };
            prep();
            names = p.VarNames();
            if (compiled && !num) r = Run<double, Comp_>(p, sc, [&]() { return p.BuildEvalState<double>(); }, prep, &note);
            else if (compiled) r = Run<AAD::Number_, Comp_>(p, sc, [&]() { return p.BuildEvalState<AAD::Number_>(); }, prep, &note);
            else if (fuzzy && !num) r = Run<double, Interp>(p, sc, [&]() { return p.BuildFuzzyEvaluator<double>(depth, eps); }, prep, &note);
            else if (fuzzy) r = Run<AAD::Number_, Interp>(p, sc, [&]() { return p.BuildFuzzyEvaluator<AAD::Number_>(depth, eps); }, prep, &note);
            else if (num) r = Run<AAD::Number_, Interp>(p, sc, [&]() { return p.BuildEvaluator<AAD::Number_>(); }, prep, &note);
            else r = Run<double, Interp>(p, sc, [&]() { return p.BuildEvaluator<double>(); }, prep, &note);
        } catch (const std::exception& e) { err = e.what(); if (err.empty()) err = "error"; }
        o.key(m.c_str());
        o.w.StartObject();
        if (!err.empty()) o.kv("exc", err.substr(0, 200));
        else {
            if (!note.empty()) o.kv("note", note);
            o.arr("v");
            for (auto& row : r) {
                o.w.StartObject();
                for (size_t i = 0; i < row.size(); ++i) {
                    std::string nm(names[i].c_str());
                    for (auto& ch : nm) ch = static_cast<char>(tolower(ch));
                    o.key(nm.c_str());
                    o.num(row[i]);
                }
                o.w.EndObject();
            }
            o.end();
        }
        o.w.EndObject();
    }
}

// ------------------------------------------------------------------------------------------------------------
// product construction from an event table
static Date_ Dt(const JV& v) { return Date::FromExcel(I(v)); }
static void Product(const JV& c, Out& o) {
    for (auto& h : c["centers"].GetArray()) {
        Vector_<Date_> hols, ww;
        for (auto& d : h["h"].GetArray()) hols.push_back(Dt(d));
        for (auto& d : h["w"].GetArray()) ww.push_back(Dt(d));
        static std::set<std::string> known;
        if (known.insert(S(h["c"])).second) Holidays::AddCenter(DS(h["c"]), hols, ww);
    }
    Global::Dates_::SetEvaluationDate(Dt(c["today"]));
    Vector_<Cell_> dates;
    Vector_<String_> texts;
    for (auto& r : c["table"].GetArray()) {
        if (r[0].IsInt()) dates.push_back(Cell_(Dt(r[0])));
        else dates.push_back(Cell_(DS(r[0])));
        texts.push_back(DS(r[1]));
    }
    // what the parser makes of the expected statements
    std::map<String_, double> k;
    for (auto& m : c["consts"].GetObject()) k[DS(m.name)] = D(m.value);
    o.arr("reference");
    for (auto& e : c["expect"].GetArray()) {
        Parser_ p(k);
        Event_ ev = p.Parse(DS(e));
        o.w.StartArray();
        for (auto& s : ev) Tree(o.w, s.get());
        o.w.EndArray();
    }
    o.end();
    std::string err;
    std::unique_ptr<ScriptProduct_> p;
    try { p = std::make_unique<ScriptProduct_>(dates, texts, DS(c["payoff"])); }
    catch (const std::exception& e) { err = e.what(); if (err.empty()) err = "error"; }
    if (!err.empty()) { o.kv("rejected", err.substr(0, 200)); return; }
    auto trees = [&](const char* name, const Vector_<Event_>& evs) {
        o.arr(name);
        for (auto& ev : evs) {
            o.w.StartArray();
            for (auto& s : ev) Tree(o.w, s.get());
            o.w.EndArray();
        }
        o.end();
    };
    auto serials = [&](const char* name, const Vector_<Date_>& ds) {
        o.arr(name);
        for (auto& d : ds) o.w.Int(Date::ToExcel(d));
        o.end();
    };
    serials("past", p->PastEventDates());
    serials("future", p->EventDates());
    trees("pastTrees", p->PastEvents());
    trees("futureTrees", p->Events());
    o.arr("preps");
    for (auto& m : c["preps"].GetArray()) {
        o.w.StartObject();
        try {
            p->PreProcess(B(m[0]), B(m[1]));
            if (B(m[2])) p->Compile();
            o.arr("vars");
            for (auto& v : p->VarNames()) o.w.String(v.c_str());
            o.end();
            o.kvs("init", p->VarValues());
            std::vector<double> days;
            for (double t : p->TimeLine()) days.push_back(std::fabs(t * 365.0 - std::round(t * 365.0)) < 1e-9 ? std::round(t * 365.0) : t * 365.0);
            o.kvs("days", days);
            o.kv("pay", static_cast<int>(p->PayOffIdx()) + 1);
            o.kv("def", p->DefLine().size());
        } catch (const std::exception& e) { o.kv("exc", std::string(e.what()).substr(0, 200)); }
        o.w.EndObject();
    }
    o.end();
}

int main() {
    static AAD::Tape_ tape;
    AAD::Number_::SetTape(tape);
    std::map<std::string, handler_t> ops;
    ops["parse"] = Parse;
    ops["eval"] = Eval;
    ops["product"] = Product;
    return RunDriver(ops);
}

// Driver for the Monte Carlo engine: simulations on pools of any size, free-running or under controlled schedules,
// and the sequential reference (one fresh generator, one path at a time).
#ifdef FREE_RUNNING              // races are looked for in free-running threads
namespace sched { struct NoG { int nprocs; }; inline NoG& G() { static NoG g; return g; } }
#else
#include "sched.hpp"
#endif
#include "common.hpp"
#include "sobolstub.hpp"
#include <dal/concurrency/threadpool.hpp>
#include <dal/math/aad/aad.hpp>
#include <dal/model/blackscholes.hpp>
#include <dal/model/dupire.hpp>
#include <dal/script/event.hpp>
#include <dal/script/simulation.hpp>
#include <dal/storage/globals.hpp>
#include <dal/time/date.hpp>
#include <public/src/script.hpp>
#include <public/src/value.hpp>
#include <atomic>
#include <new>
using namespace Dal;
using namespace Dal::Script;
using Dal::AAD::Number_;

// fault injection: the k-th allocation made by a worker thread after arming fails
static std::atomic<long> failAt{0};
#ifndef FREE_RUNNING
void* operator new(size_t n) {
    if (failAt.load(std::memory_order_relaxed) > 0 && ThreadPool_::ThreadNum() > 0 && failAt.fetch_sub(1) == 1) throw std::bad_alloc();
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
#endif

static Handle_<ModelData_> Model(const JV& m) {
    if (S(m[0]) == "bs") return Handle_<ModelData_>(new BSModelData_("m", D(m[1]), D(m[2]), D(m[3]), D(m[4])));
    Vector_<> s = {50., 80., 100., 120., 160.}, t = {0.25, 0.75, 1.5, 3.0};
    Matrix_<> v(5, 4);
    for (int i = 0; i < 5; ++i)
        for (int j = 0; j < 4; ++j) v(i, j) = D(m[2]) + D(m[5]) * (i - 2) + 0.5 * D(m[5]) * j;
    return Handle_<ModelData_>(new DupireModelData_("m", D(m[1]), D(m[3]), D(m[4]), s, t, v));
}
static Handle_<ScriptProductData_> Product(const JV& c) {
    XGLOBAL::SetEvaluationDate(Date_(2024, 3, 1));
    Vector_<Cell_> dates;
    Vector_<String_> events;
    for (auto& e : c["events"].GetArray()) {
        if (e[0].IsInt()) dates.push_back(Cell_(Date_(2024, 3, 1).AddDays(I(e[0]))));
        else dates.push_back(Cell_(DS(e[0])));
        events.push_back(DS(e[1]));
    }
    return Handle_<ScriptProductData_>(new ScriptProductData_("p", dates, events));
}
struct Res { double pv; std::vector<std::pair<std::string, double>> risks; };

static Res Simulate(const JV& c, const Handle_<ScriptProductData_>& data, const Handle_<ModelData_>& model) {
    const bool aad = B(c["aad"]), compiled = B(c["compiled"]), api = B(c["api"]);
    const int n = I(c["n"]);
    Res r;
    if (api) {
        auto m = ValueByMonteCarlo(data, model, n, DS(c["rsg"]), B(c["bb"]), aad, D(c["eps"]));
        r.pv = m["PV"] * n;
        for (auto& kv : m) if (kv.first != "PV") r.risks.emplace_back(kv.first.c_str() + 2, kv.second);
        return r;
    }
    ScriptProduct_ prd = data->Product();
    if (aad) {
        const int mx = prd.PreProcess(!compiled, true);
        if (compiled) prd.Compile();
        SimResults_ s = MCSimulation<Number_>(prd, model, static_cast<size_t>(n), DS(c["rsg"]), B(c["bb"]), compiled, mx, D(c["eps"]));
        r.pv = s.aggregated_;
        for (auto& k : s.names_) r.risks.emplace_back(k.c_str(), s[k]);
    } else {
        prd.PreProcess(false, false);
        if (compiled) prd.Compile();
        r.pv = MCSimulation<double>(prd, model, static_cast<size_t>(n), DS(c["rsg"]), B(c["bb"]), compiled).aggregated_;
    }
    return r;
}
// reference: path i on its own, from a fresh model, evaluator and tape; the generator is read in order
static void Reference(const JV& c, Out& o) {
    auto data = Product(c);
    auto model = Model(c["model"]);
    const bool aad = B(c["aad"]), compiled = B(c["compiled"]);
    const int n = I(c["n"]);
    ScriptProduct_ prd = data->Product();
    std::vector<double> pv;
    std::vector<std::vector<double>> adj;
    Vector_<String_> names;
    if (aad) {
        const int mx = prd.PreProcess(!compiled, true);
        if (compiled) prd.Compile();
        static AAD::Tape_ tape;
        Number_::SetTape(tape);
        std::unique_ptr<Random_> rng;
        for (int i = 0; i < n; ++i) {
            tape.Rewind();
            auto mdl = CreateModel<Number_>(model);
            mdl->Allocate(prd.TimeLine(), prd.DefLine());
            if (!rng) rng = CreateRNG(DS(c["rsg"]), mdl->SimDim(), B(c["bb"]));
            Scenario_<Number_> path;
            AllocatePath(prd.DefLine(), path);
            InitializePath(path);
            for (auto* p : mdl->Parameters()) p->PutOnTape();
            Vector_<> g(mdl->SimDim());
            rng->FillNormal(&g);
            std::vector<double> a;
            auto body = [&](auto& eval, auto run) {
                for (Number_& p : eval.ConstVarVals()) p.PutOnTape();
                mdl->Init(prd.TimeLine(), prd.DefLine());
                mdl->GeneratePath(g, &path);
                run();
                Number_ res = eval.VarVals()[prd.PayOffIdx()];
                pv.push_back(res.value());
                res.PropagateToStart();
                for (auto* p : mdl->Parameters()) a.push_back(p->Adjoint());
                for (Number_& p : eval.ConstVarVals()) a.push_back(p.Adjoint());
            };
            if (compiled) { auto e = prd.BuildEvalState<Number_>(); body(e, [&] { prd.EvaluateCompiled(path, e); }); }
            else { auto e = prd.BuildFuzzyEvaluator<Number_>(mx, D(c["eps"])); body(e, [&] { prd.Evaluate(path, e); }); }
            adj.push_back(a);
            if (!i) names = Vector::Join(mdl->ParameterLabels(), prd.ConstVarNames());
        }
    } else {
        prd.PreProcess(false, false);
        std::unique_ptr<Random_> rng;
        auto mdl = CreateModel<double>(model);
        mdl->Allocate(prd.TimeLine(), prd.DefLine());
        mdl->Init(prd.TimeLine(), prd.DefLine());
        rng = CreateRNG(DS(c["rsg"]), mdl->SimDim(), B(c["bb"]));
        for (int i = 0; i < n; ++i) {
            Scenario_<> path;
            AllocatePath(prd.DefLine(), path);
            InitializePath(path);
            Vector_<> g(mdl->SimDim());
            rng->FillNormal(&g);
            mdl->GeneratePath(g, &path);
            auto e = prd.BuildEvaluator<double>();
            prd.Evaluate(path, e);
            pv.push_back(e.VarVals()[prd.PayOffIdx()]);
        }
    }
    o.arr("pv");
    for (double v : pv) o.w.Double(v);
    o.end();
    o.arr("names");
    for (auto& s : names) o.w.String(s.c_str());
    o.end();
    o.arr("adj");
    for (auto& r : adj) { o.w.StartArray(); for (double v : r) o.w.Double(v); o.w.EndArray(); }
    o.end();
}
static void Write(Out& o, const Res& r) {
    o.w.StartArray();
    auto num = [&](double x) { if (std::isfinite(x)) o.w.Double(x); else o.w.String("not a number"); };
    num(r.pv);
    for (auto& k : r.risks) { o.w.StartArray(); o.w.String(k.first.c_str()); num(k.second); o.w.EndArray(); }
    o.w.EndArray();
}
// free-running: the same simulation several times, pool of the given size
static void Free(const JV& c, Out& o) {
    auto data = Product(c);
    auto model = Model(c["model"]);
    sched::G().nprocs = 8;
    ThreadPool_::GetInstance()->Start(static_cast<size_t>(I(c["threads"])), true);
    static AAD::Tape_ tape;
    Number_::SetTape(tape);
    o.arr("res");
    for (int k = 0; k < I(c["repeat"]); ++k) {
        try {
            failAt = c.HasMember("fail") ? I(c["fail"]) : 0;
            Res r = Simulate(c, data, model);
            const bool hit = c.HasMember("fail") && failAt <= 0;
            failAt = 0;
            if (hit) o.w.String("fault swallowed");
            Write(o, r);
        } catch (const std::exception& e) {
            failAt = 0;
            o.w.StartObject(); o.w.Key("exc"); o.w.String("error"); o.w.EndObject();
        }
        if (&tape != Number_::Tape()) o.w.String("tape not restored");
    }
    o.end();
}
#ifndef FREE_RUNNING
// controlled schedules
static void Sched(const JV& c, Out& o) {
    auto data = Product(c);
    auto model = Model(c["model"]);
    ThreadPool_::GetInstance()->Start(1, true);
    sched::Search s;
    std::map<std::string, int> seen;
    auto body = [&] {
        sched::G().nprocs = 8;
        ThreadPool_::GetInstance()->Start(static_cast<size_t>(I(c["threads"])), true);
        auto* tape = new AAD::Tape_;
        Number_::SetTape(*tape);
        try {
            Res r = Simulate(c, data, model);
            sched::Log("[%.17g", r.pv);
            for (auto& k : r.risks) sched::Log(",[\"%s\",%.17g]", k.first.c_str(), k.second);
            sched::Log("]");
        } catch (const std::exception& e) { sched::Log("{\"exc\":\"error\"}"); }
        ThreadPool_::GetInstance()->Stop();
    };
    auto see = [&](const std::string& how) {
        std::string h(s.shm->out, s.shm->len);
        if (!how.empty()) h = "\"" + how + "\"";
        else if (s.shm->status == 2) h = "\"stuck\"";
        else if (s.shm->status != 1) h = "\"status " + std::to_string(s.shm->status) + "\"";
        ++seen[h];
    };
    s.Explore(body, 1, 0, static_cast<uint64_t>(I(c["limit"])), see);
    for (int k = 0; k < I(c["random"]); ++k) see(s.Run(body, {}, true, static_cast<uint64_t>(I(c["seed"]) * 7919 + k + 1), 50 + 150 * (k % 5), 0));
    o.kv("runs", static_cast<long long>(s.runs));
    o.arr("res");
    for (auto& h : seen) o.w.RawValue(h.first.c_str(), h.first.size(), rapidjson::kArrayType);
    o.end();
}
#else
static void Sched(const JV&, Out&) {}
#endif
int main() {
    sched::G().nprocs = 1;
    return RunDriver({{"ref", Reference}, {"free", Free}, {"sched", Sched}});
}

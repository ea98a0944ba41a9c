// Driver for the asset models: histories of allocation, copies, bumps and paths, in plain and differentiated numbers.
#include "common.hpp"
#include "sobolstub.hpp"
#include <dal/math/aad/aad.hpp>
#include <dal/model/factory.hpp>
#include <deque>
#include <memory>
using namespace Dal;
using AAD::Number_;
static Vector_<> V(const JV& v) { Vector_<> r; for (auto& x : v.GetArray()) r.push_back(D(x)); return r; }
template <class T_> static std::unique_ptr<AAD::Model_<T_>> Make(const JV& c) {
    const JV& p = c["par"];
    const double x = D(p["x"]), r = D(p["r"]), q = D(p["q"]);
    if (S(c["kind"]) == "bs") {
        if (B(c["direct"])) return std::make_unique<AAD::BlackScholes_<T_>>(T_(x), T_(D(p["v"][0][0])), T_(r), T_(q));
        return CreateModel<T_>(Handle_<ModelData_>(new BSModelData_("m", x, D(p["v"][0][0]), r, q)));
    }
    const Vector_<> s = V(c["spots"]), t = V(c["times"]);
    Matrix_<> vols(static_cast<int>(s.size()), static_cast<int>(t.size()));
    for (int i = 0; i < vols.Rows(); ++i) for (int j = 0; j < vols.Cols(); ++j) vols(i, j) = D(p["v"][static_cast<unsigned>(i)][static_cast<unsigned>(j)]);
    if (B(c["direct"])) return std::make_unique<AAD::Dupire_<T_>>(T_(x), T_(r), T_(q), s, t, ToMatrix<T_>(vols), D(c["mx"]));
    return CreateModel<T_>(Handle_<ModelData_>(new DupireModelData_("m", x, r, q, s, t, vols)));
}
static void Put(double&) {}
static void Put(Number_& x) { x.PutOnTape(); }
static double Val(double x) { return x; }
static double Val(const Number_& x) { return x.value(); }
template <class T_> static void Run(const JV& c, Out& out) {
    constexpr bool aad = !std::is_same<T_, double>::value;
    static AAD::Tape_ tape;
    if (aad) { Number_::SetTape(tape); tape.Rewind(); }
    std::deque<Vector_<>> lines;
    std::deque<Vector_<AAD::SampleDef_>> defs;
    std::vector<std::unique_ptr<AAD::Model_<T_>>> m;
    m.push_back(Make<T_>(c));
    out.arr("labels");
    for (auto& l : m[0]->ParameterLabels()) out.w.String(l.c_str(), l.size());
    out.end();
    out.arr("w");
    for (auto& h : c["hist"].GetArray()) {
        const std::string op = S(h["op"]);
        auto& w = m[op == "A" ? 0 : static_cast<size_t>(I(h["m"]) - 1)];
        if (op == "A") {
            lines.push_back(V(h["line"]));
            defs.emplace_back(lines.back().size());
            for (size_t i = 0; i < lines.back().size(); ++i) {
                auto& d = defs.back()[i];
                d.numeraire_ = B(h["flags"][static_cast<unsigned>(i)]);
                d.discountMats_ = V(h["dfs"][static_cast<unsigned>(i)]);
                d.forwardMats_.push_back({lines.back()[i]});
            }
            for (auto& x : m) x->Allocate(lines.back(), defs.back());
        } else if (op == "C") {
            auto cl = w->Clone();
            if (B(h["again"])) cl->Allocate(lines.back(), defs.back());
            m.push_back(std::move(cl));
        } else if (op == "B") {
            const auto& ls = w->ParameterLabels();
            size_t hits = 0;
            for (size_t k = 0; k < ls.size(); ++k)
                if (ls[k] == DS(h["label"])) { *w->Parameters()[k] = T_(D(h["to"])); ++hits; }
            if (hits != 1) throw std::runtime_error("parameter " + S(h["label"]) + " not there once");
        } else {
            if (aad) tape.Rewind();
            for (auto* p : w->Parameters()) if (aad) Put(*p);
            w->Init(lines.back(), defs.back());
            AAD::Scenario_<T_> path;
            AAD::AllocatePath(defs.back(), path);
            AAD::InitializePath(path);
            const Vector_<> z = V(h["z"]);
            out.w.StartObject();
            out.kv("dim", w->SimDim());
            out.kv("np", w->NumParams());
            if (w->SimDim() != z.size()) { out.w.EndObject(); continue; }
            if (aad) tape.Mark();
            // a path before and the same path after it: a path depends on nothing but its draws
            for (int k = 0; k < 2; ++k) {
                if (aad) tape.RewindToMark();
                Vector_<> zz(z);
                if (k == 0 && !aad) for (auto& e : zz) e = -1.5 * e + 0.25;
                w->GeneratePath(zz, &path);
                if (!aad) continue;
                T_ res = T_(0.0);
                for (size_t i = 0; i < path.size(); ++i) {
                    res += (1.0 + static_cast<double>(i)) * path[i].spot_ / path[i].numeraire_;
                    for (auto& d : path[i].discounts_) res += 3.0 * d;
                }
                if constexpr (aad) res.PropagateToMark();
            }
            Vector_<> s, n, f;
            for (auto& x : path) { s.push_back(Val(x.spot_)); n.push_back(Val(x.numeraire_)); f.push_back(Val(x.forwards_[0][0])); }
            out.kvs("s", s); out.kvs("n", n); out.kvs("f", f);
            out.arr("d"); for (auto& x : path) { out.w.StartArray(); for (auto& y : x.discounts_) out.num(Val(y)); out.w.EndArray(); } out.end();
            if constexpr (aad) {
                Number_::PropagateMarkToStart();
                Vector_<> a; for (auto* p : w->Parameters()) a.push_back(p->Adjoint());
                out.kvs("adj", a);
            }
            out.w.EndObject();
        }
    }
    out.end();
}
static void Paths(const JV& c, Out& out) { if (B(c["aad"])) Run<Number_>(c, out); else Run<double>(c, out); }
int main() { return RunDriver({{"paths", Paths}}); }

// Driver for local-volatility calibration: surfaces produced by known diffusions, with and without a view of risk.
#include "common.hpp"
#include "sobolstub.hpp"
#include <dal/math/aad/aad.hpp>
#include <dal/model/dupire.hpp>
using namespace Dal;
using AAD::Number_;
static Vector_<> V(const JV& v) { Vector_<> r; for (auto& x : v.GetArray()) r.push_back(D(x)); return r; }
using LD = long double;
static LD Ncdf(LD x) { return 0.5L * erfcl(-x / sqrtl(2.0L)); }
static LD Black(LD f, LD k, LD s) { const LD d = logl(f / k) / s + 0.5L * s; return f * Ncdf(d) - k * Ncdf(d - s); }
// time value, in the money or out of it
static LD Otm(LD f, LD k, LD s) { const LD d = logl(f / k) / s + 0.5L * s; return k >= f ? f * Ncdf(d) - k * Ncdf(d - s) : k * Ncdf(s - d) - f * Ncdf(-d); }
struct Surface : AAD::IVS_ {
    std::string f; LD v0, a; Vector_<> nodes, spr; bool own;
    Surface(double s, const JV& c) : IVS_(s), f(S(c["f"])), v0(D(c["v0"])), a(D(c["a"])), nodes(V(c["ns"])), spr(V(c["sp"])), own(!B(c["risk"])) {}
    double ImpliedVol(double strike, double mat) const override {
        if (f == "term") {
            if (!own) return static_cast<double>(v0);
            const size_t m = nodes.size();
            if (mat <= nodes[0]) return static_cast<double>(v0 + spr[0]);
            for (size_t i = 1; i < m; ++i)
                if (mat <= nodes[i]) return static_cast<double>(v0 + spr[i - 1] + (static_cast<LD>(mat) - nodes[i - 1]) / (static_cast<LD>(nodes[i]) - nodes[i - 1]) * (spr[i] - spr[i - 1]));
            return static_cast<double>(v0 + spr[m - 1]);
        }
        const LD k = strike, s0 = Spot(), t = sqrtl(static_cast<LD>(mat));
        LD p, guess;      // price of the option out of the money
        if (f == "shift") { p = Otm(s0 + a, k + a, v0 * t); guess = v0 * (1 + a / sqrtl(s0 * k)); }
        else {
            const LD s = v0 * s0 * t, x = fabsl(k - s0) / s;
            p = s * (expl(-0.5L * x * x) / sqrtl(2 * acosl(-1.0L)) - x * Ncdf(-x)); guess = v0 * sqrtl(s0 / k);
        }
        LD lo = 1e-4L, hi = 20 * guess * t + 1, y = guess * t;
        for (int i = 0; i < 200; ++i) {
            const LD e = Otm(s0, k, y) - p;
            (e > 0 ? hi : lo) = y;
            const LD d = logl(s0 / k) / y + 0.5L * y, vega = s0 * expl(-0.5L * d * d) / sqrtl(2 * acosl(-1.0L));
            LD z = y - e / vega;
            if (!(z > lo && z < hi)) z = 0.5L * (lo + hi);
            if (fabsl(z - y) < 1e-18L * y) break;
            y = z;
        }
        return static_cast<double>(y / t);
    }
};
template <class R_> static void Put(const R_& r, Out& out) {
    out.w.StartObject();
    out.kvs("spots", r.spots_); out.kvs("times", r.times_);
    out.arr("lv");
    for (int j = 0; j < r.lVols_.Cols(); ++j) {
        out.w.StartArray();
        for (int i = 0; i < r.lVols_.Rows(); ++i) out.num(static_cast<double>(r.lVols_(i, j)));
        out.w.EndArray();
    }
    out.end();
    out.w.EndObject();
}
template <class T_> static AAD::RiskView_<T_> View(const Surface& s, const Vector_<>& strikes) {
    AAD::RiskView_<T_> view(strikes, s.nodes);
    for (size_t i = 0; i < strikes.size(); ++i) for (size_t j = 0; j < s.nodes.size(); ++j) view.Bump(static_cast<int>(i), static_cast<int>(j), s.spr[j]);
    return view;
}
static void Calib(const JV& c, Out& out) {
    const double spot = D(c["spot"]);
    const Surface ivs(spot, c);
    const Vector_<> ss = V(c["ss"]), ts = V(c["ts"]), strikes = V(c["strikes"]);
    const double ds = D(c["ds"]), dt = D(c["dt"]);
    if (ivs.own) { out.key("own"); Put(AAD::DupireCalib(ivs, ss, ds, ts, dt), out); }
    const bool view = B(c["risk"]);
    if (view) { out.key("risk"); Put(AAD::DupireCalib(ivs, ss, ds, ts, dt, View<double>(ivs, strikes)), out); }
    if (view && c.HasMember("cell")) {
        static AAD::Tape_ tape;
        Number_::SetTape(tape);
        tape.Rewind();
        auto rv = View<double>(ivs, strikes);
        AAD::RiskView_<Number_> rn(strikes, ivs.nodes);
        auto x = rn.begin();
        for (auto y = rv.begin(); y != rv.end(); ++y, ++x) { *x = Number_(*y); x->PutOnTape(); }
        auto r = AAD::DupireCalib(ivs, ss, ds, ts, dt, rn);
        const int i = static_cast<int>(I(c["cell"][0u])), j = static_cast<int>(I(c["cell"][1u]));
        Number_ y = r.lVols_(i, j);
        y.PropagateToStart();
        out.kv("val", y.value());
        out.arr("adj");
        for (auto& e : rn) out.num(e.Adjoint());
        out.end();
        out.arr("bump");
        for (size_t p = 0; p < strikes.size(); ++p) for (size_t q = 0; q < ivs.nodes.size(); ++q) {
            double v[4];
            for (int k = 0; k < 4; ++k) {
                auto w = rv;
                w.Bump(static_cast<int>(p), static_cast<int>(q), (k % 2 ? 1e-5 : -1e-5) * (k / 2 ? 4 : 1));
                v[k] = AAD::DupireCalib(ivs, ss, ds, ts, dt, w).lVols_(i, j);
            }
            out.num((v[1] - v[0]) / 2e-5); out.num((v[3] - v[2]) / 8e-5);
        }
        out.end();
    }
    if (c.HasMember("merton")) {
        const JV& m = c["merton"];
        AAD::MertonIVS_ me(spot, D(m[0u]), D(m[1]), D(m[2]), D(m[3]));
        out.arr("mcall");
        for (double k : strikes) for (double t : ts) { out.num(me.Call(k, t)); }
        out.end();
        AAD::MertonIVS_ flat(spot, D(m[0u]), 0.0, D(m[2]), D(m[3]));
        out.key("mflat"); Put(AAD::DupireCalib(flat, ss, ds, ts, dt), out);
    }
}
int main() { return RunDriver({{"calib", Calib}}); }

// Driver for root searches and option formulas.
#include "common.hpp"
#include "sobolstub.hpp"
#include <dal/platform/platform.hpp>
#include <dal/math/rootfind.hpp>
#include <dal/math/aad/aad.hpp>
#include <dal/math/analytics/vanilla.hpp>
#include <dal/math/distribution/black.hpp>
#include <dal/math/distribution/utils.hpp>
#include <dal/math/specialfunctions.hpp>
#include <dal/model/dupire.hpp>
#include <memory>
using namespace Dal;
static Vector_<> V(const JV& v) { Vector_<> r; for (auto& x : v.GetArray()) r.push_back(D(x)); return r; }
struct Polygon_ {
    Vector_<> k, f;
    std::string bend;
    double unit;
    double operator()(double x) const {
        size_t i = 0;
        while (i + 2 < k.size() && x >= k[i + 1]) ++i;
        const double slope = (f[i + 1] - f[i]) / (k[i + 1] - k[i]);
        // from the nearer knot: exact on the knots
        const double y = std::fabs(x - k[i]) <= std::fabs(x - k[i + 1]) ? f[i] + slope * (x - k[i]) : f[i + 1] + slope * (x - k[i + 1]);
        if (bend == "cube") return unit * y * y * y;
        if (bend == "ninth") return unit * std::pow(y, 9);
        if (bend == "root") return unit * (y < 0 ? -std::sqrt(-y) : std::sqrt(y));
        if (bend == "jump") return unit * (y < 0 ? y - 1 : y > 0 ? y + 1 : 0.0);
        if (bend == "exp") return unit * (y < 0 ? -std::expm1(-y) : std::expm1(y));
        return unit * y;
    }
};
static void Root(const JV& c, Out& out) {
    Polygon_ f{V(c["kn"]), V(c["fv"]), S(c["bend"]), D(c["unit"])};
    std::unique_ptr<RootFinder_> r;
    Vector_<> x, y, w;
    if (c.HasMember("guess")) r.reset(new Brent_(D(c["guess"]), D(c["tol"]), D(c["step"])));
    else {
        x = V(c["ends"]);
        for (double e : x) y.push_back(f(e));
        r.reset(new BracketedBrent_({x[0], y[0]}, {x[1], y[1]}, D(c["tol"])));
        w.push_back(0.0); w.push_back(r->BracketWidth());
    }
    Converged_ done(D(c["xtol"]), D(c["ftol"]));
    bool ok = false;
    for (int i = 0; i < I(c["max"]) && !ok; ++i) {
        const double z = r->NextX();
        x.push_back(z); y.push_back(f(z));
        ok = done(*r, y.back());
        w.push_back(r->BracketWidth());
        if (!std::isfinite(z)) break;
    }
    out.kvs("x", x); out.kvs("y", y); out.kvs("w", w); out.kv("ok", ok);
}
static const char* TYPES[] = {"Put", "Call", "Straddle"};
// a quote and everything the library derives from it
static void Quotes(const JV& c, Out& out) {
    using AAD::Number_;
    static AAD::Tape_ tape;
    const bool black = S(c["model"]) == "black";
    out.arr("q");
    for (auto& h : c["h"].GetArray()) {
        const double f = D(h["fv"]), k = D(h["kv"]), vol = D(h["vv"]);
        const OptionType_ t(TYPES[I(h["b"])]);
        out.w.StartObject();
        std::unique_ptr<Distribution_> d;
        if (black) d.reset(new DistributionBlack_(f, vol)); else d.reset(new DistributionBachelier_(f, vol));
        const double p = d->OptionPrice(k, t);
        out.kv("p", p);
        out.kv("pf", black ? Distribution::BlackOpt(f, vol, k, t) : Distribution::BachelierOpt(f, vol, k, t));
        out.kv("fwd", d->Forward());
        out.kv("vol", d->Vol());
        if (vol > 0) {
            auto g = d->ParameterDerivatives(k, t, {"delta", "vega", "volvega"});
            out.kvs("g", Vector_<>({g["delta"], g["vega"], g["volvega"], d->VolVega(k, t)}));
            Number_::SetTape(tape); tape.Rewind();
            Number_ nf(f), nv(vol), nk(k);
            Number_ r = black ? Distribution::BlackOpt(nf, nv, nk, t) : Distribution::BachelierOpt(nf, nv, nk, t);
            r.PropagateToStart();
            out.kvs("a", Vector_<>({r.value(), nf.Adjoint(), nv.Adjoint(), nk.Adjoint()}));
        }
        out.arr("iv");
        for (int j = 0; j < 3; ++j) {
            const double guess = j == 0 ? 0.0 : j == 1 ? vol * 1.3 : vol * 0.8;
            double iv = -1;
            try { iv = black ? Distribution::BlackIV(f, k, t, p, guess) : Distribution::BachelierIV(f, k, t, p, guess); } catch (const std::exception& e) { iv = -2; }
            out.num(iv); out.num(iv < 0 ? 0.0 : black ? Distribution::BlackOpt(f, iv, k, t) : Distribution::BachelierOpt(f, iv, k, t));
        }
        out.end();
        if (black && I(h["b"]) == 1 && vol > 0) {
            const double mat = D(c["mat"]);
            out.kv("bs", AAD::BlackScholes(f, k, vol / std::sqrt(mat), mat));
            out.kv("bsiv", Throws([&] { AAD::BlackScholesIVol(f, k, p, mat); }) ? -2.0 : AAD::BlackScholesIVol(f, k, p, mat));
            out.kv("m0", AAD::Merton(f, k, vol / std::sqrt(mat), mat, 0.0, -0.15, 0.1));
            out.kv("m1", AAD::Merton(f, k, vol / std::sqrt(mat), mat, D(c["lam"]), 0.0, 0.0));
            out.kv("m2", AAD::Merton(f, k, vol / std::sqrt(mat), mat, D(c["lam"]), -0.15, 0.1));
        }
        if (!black && I(h["b"]) == 1 && vol > 0) {
            const double mat = D(c["mat"]);
            out.kv("bs", AAD::Bachelier(f, k, vol / std::sqrt(mat), mat));
            out.kv("bsiv", Throws([&] { AAD::BachelierIVol(f, k, p, mat); }) ? -2.0 : AAD::BachelierIVol(f, k, p, mat));
        }
        const double low = t.Payout(f, k) - 0.01 * std::max(1.0, std::fabs(f));
        out.kv("rej", Throws([&] { black ? Distribution::BlackIV(f, k, t, low) : Distribution::BachelierIV(f, k, t, low); }));
        if (black && I(h["b"]) < 2) out.kv("rej2", Throws([&] { Distribution::BlackIV(f, k, t, 1.05 * (I(h["b"]) ? f : k)); }));
        if (black) out.kv("steps", Throws([&] { Distribution::BlackIV(*d, k, 0.0, 3); }) ? -2.0 : Distribution::BlackIV(*d, k, 0.0, 3));
        out.w.EndObject();
    }
    out.end();
}
static void Normal(const JV& c, Out& out) {
    Vector_<> n, ns, d, i, is;
    for (double z : V(c["z"])) { n.push_back(NCDF(z)); ns.push_back(NCDF(z, false)); d.push_back(NPDF(z)); }
    for (double u : V(c["u"])) { i.push_back(InverseNCDF(u)); is.push_back(InverseNCDF(u, false, true)); }
    out.kvs("n", n); out.kvs("ns", ns); out.kvs("d", d); out.kvs("i", i); out.kvs("is", is);
}
int main() { return RunDriver({{"root", Root}, {"quotes", Quotes}, {"normal", Normal}}); }

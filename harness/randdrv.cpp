// Driver for the random generators: streams with skips and clones, the Brownian bridge's response.
#include "common.hpp"
#include <dal/math/random/brownianbridge.hpp>
#include <dal/math/random/pseudorandom.hpp>
#include <dal/math/specialfunctions.hpp>
#include <memory>
using namespace Dal;

static void Vec(Out& out, const Vector_<>& v) {
    out.w.StartArray();
    for (double d : v) out.num(d);
    out.w.EndArray();
}

static std::unique_ptr<Random_> Make(const JV& c) {
    std::unique_ptr<Random_> r(New(RNGType_(DS(c["kind"])), I(c["seed"]), static_cast<size_t>(I(c["dim"])), B(c["precise"])));
    if (B(c["bb"])) return std::unique_ptr<Random_>(new BrownianBridge_(std::move(r)));
    return r;
}

// a history of draws, skips and clones; every drawn vector is reported
static void Stream(const JV& c, Out& out) {
    std::vector<std::unique_ptr<Random_>> g;
    g.push_back(Make(c));
    const size_t dim = static_cast<size_t>(I(c["dim"]));
    out.kv("ndim", g[0]->NDim());
    out.arr("v");
    for (auto& h : c["h"].GetArray()) {
        const std::string w = S(h[0]);
        Random_& r = *g[static_cast<size_t>(I(h[1])) - 1];
        Vector_<> v(dim, -77.0);
        if (w == "U") { r.FillUniform(&v); Vec(out, v); }
        else if (w == "N") { r.FillNormal(&v); Vec(out, v); }
        else if (w == "S") r.SkipTo(static_cast<size_t>(h[2].GetUint64()));
        else g.push_back(std::unique_ptr<Random_>(r.Clone()));
    }
    out.end();
}

// the storable wrapper draws the same streams
static void Wrapper(const JV& c, Out& out) {
    PseudoRSG_ r(DS(c["kind"]), I(c["seed"]), I(c["dim"]), B(c["precise"]));
    out.kv("ndim", r.NDim());
    out.arr("v");
    for (auto& h : c["h"].GetArray()) {
        Vector_<> v(static_cast<size_t>(I(c["dim"])), -77.0);
        if (S(h[0]) == "U") r.FillUniform(&v); else r.FillNormal(&v);
        Vec(out, v);
    }
    out.end();
}

static void Inv(const JV& c, Out& out) {
    out.arr("v");
    for (auto& u : c["u"].GetArray()) out.num(InverseNCDF(D(u), B(c["precise"]), B(c["precise"])));
    out.end();
}

// a driver whose n-th vector is given
struct Stub_ : Random_ {
    std::vector<Vector_<>> rows_;
    size_t n_, pos_ = 0;
    Stub_(std::vector<Vector_<>> rows, size_t n) : rows_(std::move(rows)), n_(n) {}
    void FillUniform(Vector_<>* v) override { FillNormal(v); for (auto& x : *v) x = NCDF(x); }
    void FillNormal(Vector_<>* v) override { const auto& r = rows_[pos_++ % rows_.size()]; v->Resize(n_); for (size_t i = 0; i < n_; ++i) (*v)[i] = r[i]; }
    void SkipTo(size_t n) override { pos_ = n; }
    Random_* Clone() const override { return new Stub_(rows_, n_); }
    size_t NDim() const override { return n_; }
};
static void Bridge(const JV& c, Out& out) {
    const size_t n = static_cast<size_t>(I(c["dim"]));
    std::vector<Vector_<>> rows;
    for (auto& r : c["rows"].GetArray()) { Vector_<> v; for (auto& x : r.GetArray()) v.push_back(D(x)); rows.push_back(v); }
    BrownianBridge_ b(std::unique_ptr<Random_>(new Stub_(rows, n)));
    std::vector<std::unique_ptr<Random_>> g;
    out.kv("ndim", b.NDim());
    out.arr("v");
    Random_* cur = &b;
    for (auto& h : c["h"].GetArray()) {
        const std::string w = S(h[0]);
        Vector_<> v(n, -77.0);
        if (w == "U") { cur->FillUniform(&v); Vec(out, v); }
        else if (w == "N") { cur->FillNormal(&v); Vec(out, v); }
        else if (w == "S") cur->SkipTo(static_cast<size_t>(h[2].GetUint64()));
        else { g.emplace_back(cur->Clone()); cur = g.back().get(); }
    }
    out.end();
}

int main() {
    return RunDriver({{"stream", Stream}, {"wrapper", Wrapper}, {"inv", Inv}, {"bridge", Bridge}});
}

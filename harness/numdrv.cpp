// Driver for finite differences, meshes, smoothing and the underdetermined search.
#include "common.hpp"
#include "sobolstub.hpp"
#include <dal/platform/platform.hpp>
#include <bitset>
#include <dal/math/matrix/banded.hpp>
#include <dal/math/matrix/matrixs.hpp>
#include <dal/math/matrix/squarematrix.hpp>
#include <dal/math/matrix/sparse.hpp>
#include <dal/math/optimization/underdetermined.hpp>
#include <dal/math/pde/fd1d.hpp>
#include <dal/math/pde/finitedifference.hpp>
#include <dal/math/pde/meshers/concentrating1dmesher.hpp>
#include <dal/math/pde/meshers/uniform1dmesher.hpp>
#include <dal/math/pde/pde.hpp>
#include <dal/math/smooth.hpp>
#include <dal/storage/archive.hpp>
#include <dal/utilities/dictionary.hpp>
#include <memory>
using namespace Dal;
static Vector_<> V(const JV& v) { Vector_<> r; for (auto& x : v.GetArray()) r.push_back(D(x)); return r; }
struct Nodes_ : FDM1DMesher_ {
    explicit Nodes_(const Vector_<>& x) : FDM1DMesher_(static_cast<int>(x.size())) {
        for (size_t i = 0; i < x.size(); ++i) {
            locations_[i] = x[i];
            dplus_[i] = i + 1 < x.size() ? x[i + 1] - x[i] : Null_<double>();
            dminus_[i] = i > 0 ? x[i] - x[i - 1] : Null_<double>();
        }
    }
};
static void Pde(const JV& c, Out& out) {
    const Vector_<> x = V(c["gx"]);
    Nodes_ m(x);
    std::unique_ptr<Sparse::TriDiagonal_> dx(PDE::Dx(m)), dxx(PDE::Dxx(m));
    for (auto p : {std::make_pair("dx", dx.get()), std::make_pair("dxx", dxx.get())}) {
        out.arr(p.first);
        for (int i = 0; i < dx->Size(); ++i) {
            out.w.StartArray();
            for (int j = std::max(0, i - 1); j < std::min(dx->Size(), i + 2); ++j) out.num((*p.second)(i, j));
            out.w.EndArray();
        }
        out.end();
    }
    PDE::FD1D_ f(m);
    f.Init();
    f.R() = V(c["r"]); f.Mu() = V(c["m"]); f.Var() = V(c["s"]);
    out.kvs("x", f.X());
    out.arr("u");
    for (auto& t : c["theta"].GetArray()) {
        Vector_<> v = V(c["vv"]);
        f.RollBwd(D(c["dt"]), D(t), v);
        out.w.StartArray(); for (double e : v) out.num(e); out.w.EndArray();
    }
    // again, from the result
    {
        Vector_<> v = V(c["vv"]);
        f.RollBwd(D(c["dt"]), 0.0, v);
        f.RollBwd(D(c["dt"]), 1.0, v);
        out.w.StartArray(); for (double e : v) out.num(e); out.w.EndArray();
    }
    out.end();
}
static void Mesh(const JV& c, Out& out) {
    std::unique_ptr<FDM1DMesher_> m;
    const double a = D(c["a"]), b = D(c["b"]);
    const int n = I(c["n"]);
    bool rej = Throws([&] {
        if (S(c["kind"]) == "uniform") m.reset(new Uniform1DMesher_(a, b, n));
        else m.reset(new Concentrating1dMesher_(a, b, n, {D(c["at"]), D(c["den"])}, B(c["req"])));
    });
    out.kv("rej", rej);
    if (rej) return;
    out.kv("n", m->Size());
    Vector_<> x, p, q;
    for (int i = 0; i < m->Size(); ++i) { x.push_back(m->Location(i)); if (i + 1 < m->Size()) p.push_back(m->DPlus(i)); if (i) q.push_back(m->DMinus(i)); }
    out.kvs("x", x); out.kvs("p", p); out.kvs("q", q); out.kvs("l", m->Locations());
    out.kv("ends", m->DPlus(m->Size() - 1) == Null_<double>() && m->DMinus(0) == Null_<double>());
}
static void Map(const JV& c, Out& out) {
    std::unique_ptr<PDE::CoordinateMap_> m(PDE::NewSinhMap(D(c["w"]), D(c["r"])));
    out.arr("v");
    for (double y : V(c["y"])) {
        double d1 = 0, d2 = 0;
        const double x = (*m)(y, &d1, &d2);
        out.w.StartArray(); out.num(x); out.num(d1); out.num(d2); out.num(m->Y(x)); out.num((*m)(y)); out.w.EndArray();
    }
    out.end();
    double d = 0; (*m)(m->Y(D(c["w"])), &d);
    out.kv("edge", d);
}
static void Smooth(const JV& c, Out& out) {
    const Vector_<> w = V(c["w"]);
    out.kvs("z", SmoothedVals(V(c["x"]), V(c["y"]), w, D(c["l"])));
    bool ones = true; for (double e : w) ones = ones && e == 1.0;
    if (ones) out.kvs("z1", SmoothedVals(V(c["x"]), V(c["y"]), Vector_<>(), D(c["l"])));
}
struct Func_ : Underdetermined::Function_ {
    Matrix_<> j; Vector_<> p; double bend;
    mutable int evals = 0;
    Vector_<> F(const Vector_<>& x) const override {
        ++evals;
        Vector_<> r(j.Rows());
        for (int i = 0; i < j.Rows(); ++i) { double y = 0; for (int k = 0; k < j.Cols(); ++k) y += j(i, k) * (x[k] - p[k]); r[i] = y + bend * y * y * y; }
        return r;
    }
};
static void Under(const JV& c, Out& out) {
    Func_ f;
    const int n = static_cast<int>(c["jj"].Size());
    f.p = V(c["p"]); f.bend = D(c["bend"]);
    f.j.Resize(n, static_cast<int>(f.p.size()));
    for (int i = 0; i < n; ++i) for (int k = 0; k < f.j.Cols(); ++k) f.j(i, k) = D(c["jj"][static_cast<unsigned>(i)][static_cast<unsigned>(k)]);
    Sparse::TriDiagonal_ w(f.j.Cols());
    for (int k = 0; k < w.Size(); ++k) w.Set(k, k, D(c["w"][static_cast<unsigned>(k)]));
    std::unique_ptr<Sparse::SymmetricDecomposition_> d(w.DecomposeSymmetric());
    Dictionary_ dict;
    dict.Insert(String_("maxEvaluations"), Cell_(static_cast<double>(I(c["evals"]))));
    dict.Insert(String_("maxRestarts"), Cell_(static_cast<double>(I(c["grads"]))));
    Underdetermined::Controls_ ctl(dict);
    Vector_<> x;
    bool gave = Throws([&] { x = Underdetermined::Find(f, V(c["x0"]), Vector_<>(n, D(c["tol"])), *d, ctl); });
    out.kv("gave", gave);
    out.kv("evals", f.evals);
    if (gave) return;
    out.kvs("x", x); out.kvs("f", f.F(x));
}
int main() { return RunDriver({{"pde", Pde}, {"mesh", Mesh}, {"map", Map}, {"smooth", Smooth}, {"under", Under}}); }

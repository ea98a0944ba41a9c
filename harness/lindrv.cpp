// Driver for linear algebra: banded storage, decompositions, iterative solvers, products.
#include "common.hpp"
#include "sobolstub.hpp"
#include <dal/platform/platform.hpp>
#include <dal/math/vectors.hpp>
#include <dal/math/matrix/matrixs.hpp>
#include <dal/math/matrix/squarematrix.hpp>
#include <dal/math/matrix/banded.hpp>
#include <dal/math/matrix/bcg.hpp>
#include <dal/math/matrix/cholesky.hpp>
#include <dal/math/matrix/sparse.hpp>
#include <dal/math/matrix/sparseutils.hpp>
#include <dal/math/matrix/decompositions.hpp>
#include <dal/math/matrix/decompositionsmisc.hpp>
#include <dal/math/matrix/matrixarithmetic.hpp>
#include <memory>
using namespace Dal;
static Vector_<> V(const JV& v) { Vector_<> r; for (auto& x : v.GetArray()) r.push_back(D(x)); return r; }
static Matrix_<> M(const JV& v, int rows, int cols) {
    Matrix_<> r(rows, cols);
    for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) r(i, j) = D(v[static_cast<unsigned>(i)][static_cast<unsigned>(j)]);
    return r;
}
static void Fill(Out& out, const char* k, std::function<Vector_<>()> f) {
    Vector_<> r; bool bad = Throws([&] { r = f(); });
    if (bad) out.kv(k, std::string("rejected")); else out.kvs(k, r);
}
// solving and multiplying through a decomposition, with fresh, preset and aliased destinations
static void Decomp(Out& out, const char* k, const SquareMatrixDecomposition_& d, const Vector_<>& x, const Vector_<>& ml, const Vector_<>& mr) {
    const std::string K(k);
    Fill(out, (K + "ml").c_str(), [&] { Vector_<> r; d.MultiplyLeft(x, &r); return r; });
    Fill(out, (K + "mr").c_str(), [&] { Vector_<> r(x.size(), 7.0); d.MultiplyRight(x, &r); return r; });
    Fill(out, (K + "mla").c_str(), [&] { Vector_<> r(x); d.MultiplyLeft(r, &r); return r; });
    Fill(out, (K + "mra").c_str(), [&] { Vector_<> r(x); d.MultiplyRight(r, &r); return r; });
    Fill(out, (K + "sl").c_str(), [&] { Vector_<> r; d.SolveLeft(ml, &r); return r; });
    Fill(out, (K + "sr").c_str(), [&] { Vector_<> r(x.size(), 7.0); d.SolveRight(mr, &r); return r; });
    Fill(out, (K + "sla").c_str(), [&] { Vector_<> r(ml); d.SolveLeft(r, &r); return r; });
    Fill(out, (K + "sra").c_str(), [&] { Vector_<> r(mr); d.SolveRight(r, &r); return r; });
}
static Matrix_<> Rows(const Vector_<>& a, const Vector_<>& b) {
    Matrix_<> r(2, static_cast<int>(a.size()));
    for (int j = 0; j < r.Cols(); ++j) { r(0, j) = a[j]; r(1, j) = b[j]; }
    return r;
}
static void Quad(Out& out, const char* k, const Sparse::SymmetricDecomposition_& d, const Vector_<>& a, const Vector_<>& b) {
    Fill(out, k, [&] { SquareMatrix_<> q; d.QForm(Rows(a, b), &q); return Vector_<>({q(0, 0), q(0, 1), q(1, 0), q(1, 1)}); });
}
static void Correlate(Out& out, const char* k, const SymmetricMatrixDecomposition_& d, const Vector_<>& x) {
    Fill(out, k, [&] { Vector_<> r; d.MakeCorrelated(x.begin(), &r); return r; });
}
static void Band(const JV& c, Out& out) {
    const int n = I(c["sh"][0]);
    std::unique_ptr<Sparse::Square_> m(Sparse::NewBandDiagonal(n, I(c["sh"][1]), I(c["sh"][2])));
    const Vector_<> x = V(c["x"]), w = V(c["w"]);
    out.arr("rej");
    for (auto& e : c["w0"].GetArray()) m->Set(I(e[0]), I(e[1]), D(e[2]));
    for (auto& e : c["h"].GetArray()) {
        const int i = I(e["i"]) - 1, j = I(e["j"]) - 1;
        const std::string op = S(e["op"]);
        if (op == "L") continue;
        const double v = D(e["v"]);
        out.w.Bool(Throws([&] { if (op == "S") m->Set(i, j, v); else if (op == "A") m->Add(i, j, v); else Sparse::AddCoupling(m.get(), i, j, v); }));
    }
    out.end();
    out.kv("size", m->Size());
    out.arr("cells");
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) out.num((*m)(i, j));
    out.end();
    Fill(out, "ml", [&] { Vector_<> r; m->MultiplyLeft(x, &r); return r; });
    Fill(out, "mr", [&] { Vector_<> r(x.size(), 9.0); m->MultiplyRight(x, &r); return r; });
    out.kv("sym", m->IsSymmetric());
    std::unique_ptr<SquareMatrixDecomposition_> d;
    const bool bad = Throws([&] { d.reset(m->Decompose()); });
    out.kv("ok", !bad);
    if (!bad) {
        Decomp(out, "d", *d, x, V(c["ml"]), V(c["mr"]));
        if (B(c["sym"])) {
            std::unique_ptr<Sparse::SymmetricDecomposition_> s(m->DecomposeSymmetric());
            out.kv("symdec", s.get() != nullptr);
            if (s) { Quad(out, "q", *s, V(c["ml"]), V(c["mw"])); Correlate(out, "corr", *s, x); }
        }
    }
    if (B(c["spd"])) {
        for (int g = 0; g < 3; ++g) {
            const Vector_<> start = g == 0 ? Vector_<>(x.size(), 0.0) : g == 1 ? x : w;
            Fill(out, ("cg" + std::to_string(g)).c_str(), [&] { Vector_<> r(start); Sparse::CGSolve(*m, V(c["ml"]), g == 2 ? 0.0 : 1e-12, g == 2 ? 1e-9 : 0.0, 400, &r); return r; });
            Fill(out, ("bcg" + std::to_string(g)).c_str(), [&] { Vector_<> r(start); Sparse::BCGSolve(*m, V(c["ml"]), g == 2 ? 0.0 : 1e-12, g == 2 ? 1e-9 : 0.0, 400, &r); return r; });
        }
    }
}
static void Dense(const JV& c, Out& out) {
    const int n = I(c["sh"][0]);
    const Vector_<> x = V(c["x"]), w = V(c["w"]), ml = V(c["ml"]);
    SquareMatrix_<> a(n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a(i, j) = D(c["m"][static_cast<unsigned>(i)][static_cast<unsigned>(j)]);
    std::unique_ptr<SquareMatrixDecomposition_> low(LowerTriangularAsDecomposition(a));
    Decomp(out, "t", *low, x, V(c["ll"]), V(c["lr"]));
    Vector_<> dg(n); for (int i = 0; i < n; ++i) dg[i] = a(i, i);
    std::unique_ptr<SymmetricMatrixDecomposition_> diag(DiagonalAsDecomposition(dg));
    Decomp(out, "g", *diag, x, V(c["dx"]), V(c["dx"]));
    Correlate(out, "gcorr", *diag, x);
    if (!B(c["sym"])) return;
    if (B(c["spd"]) || S(c["load"]) == "psd") {
        const SquareMatrix_<> keep(a);
        std::unique_ptr<Sparse::SymmetricDecomposition_> d;
        const bool bad = Throws([&] { d.reset(CholeskyDecomposition(a)); });
        out.kv("cok", !bad);
        if (bad) return;
        Decomp(out, "c", *d, x, ml, ml);
        Fill(out, "cs", [&] { Vector_<> r; d->Solve(ml, &r); return r; });
        Fill(out, "cm", [&] { Vector_<> r; d->Multiply(x, &r); return r; });
        Correlate(out, "ccorr", *d, x);
        if (!B(c["spd"])) return;
        Quad(out, "cq", *d, ml, V(c["mw"]));
        Vector_<Vector_<>> bs(2); bs[0] = ml; bs[1] = V(c["mw"]);
        SquareMatrix_<> b(keep);
        if (Throws([&] { CholeskySolve(&b, &bs, Dal::EPSILON); })) out.kv("solve", std::string("rejected"));
        else { out.kvs("solve0", bs[0]); out.kvs("solve1", bs[1]); }
    }
}
static void Mul(const JV& c, Out& out) {
    const int r = I(c["d"][0]), k = I(c["d"][1]), k2 = I(c["d"][2]), s = I(c["d"][3]);
    const Matrix_<> a = M(c["a"], r, k), b = M(c["b"], k2, s);
    const Vector_<> u = V(c["u"]), v = V(c["v"]);
    auto flat = [](const Matrix_<>& m) { Vector_<> f({double(m.Rows()), double(m.Cols())}); for (int i = 0; i < m.Rows(); ++i) for (int j = 0; j < m.Cols(); ++j) f.push_back(m(i, j)); return f; };
    Fill(out, "ab", [&] { Matrix_<> x; Matrix::Multiply(a, b, &x); return flat(x); });
    Fill(out, "ab2", [&] { Matrix_<> x(4, 5); x.Fill(8.0); Matrix::Multiply(a, b, &x); return flat(x); });
    Fill(out, "aba", [&] { Matrix_<> x(a); Matrix::Multiply(x, b, &x); return flat(x); });
    Fill(out, "abb", [&] { Matrix_<> x(b); Matrix::Multiply(a, x, &x); return flat(x); });
    Fill(out, "av", [&] { Vector_<> x; Matrix::Multiply(a, v, &x); return x; });
    Fill(out, "ava", [&] { Vector_<> x(v); Matrix::Multiply(a, x, &x); return x; });
    Fill(out, "ua", [&] { Vector_<> x; Matrix::Multiply(u, a, &x); return x; });
    Fill(out, "uaa", [&] { Vector_<> x(u); Matrix::Multiply(x, a, &x); return x; });
    Fill(out, "bv", [&] { Vector_<> x; Matrix::Multiply(b, v, &x); return x; });
    Fill(out, "jj", [&] { Matrix_<> h(r, r); for (int i = 0; i < r; ++i) for (int j = 0; j < r; ++j) h(i, j) = 100.0 * i + j; Matrix::AddJSquaredToUpper(a, &h); return flat(h); });
    Fill(out, "wip", [&] { return Vector_<>({Matrix::WeightedInnerProduct(u, a, v)}); });
}
int main() { return RunDriver({{"band", Band}, {"dense", Dense}, {"mul", Mul}}); }

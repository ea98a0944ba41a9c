// Driver for interpolators and curves.
#include "common.hpp"
#include "sobolstub.hpp"
#include <dal/platform/platform.hpp>
#include <dal/curve/discount.hpp>
#include <dal/curve/piecewiseconstant.hpp>
#include <dal/curve/piecewiselinear.hpp>
#include <dal/curve/ycimp.hpp>
#include <dal/math/interp/interp.hpp>
#include <dal/math/interp/interp2d.hpp>
#include <dal/math/interp/interpcubic.hpp>
#include <dal/math/matrix/matrixs.hpp>
#include <dal/time/date.hpp>
#include <memory>
using namespace Dal;
namespace {
    Vector_<> Nums(const JV& v, double s = 1.0, double o = 0.0) { Vector_<> r; for (auto& x : v.GetArray()) r.push_back(s * D(x) + o); return r; }
    Date_ Day(int d) { return Date_(2024, 2, 28).AddDays(d); }
    Vector_<Date_> Days(const JV& v, int by) { Vector_<Date_> r; for (auto& x : v.GetArray()) r.push_back(Day(by * I(x))); return r; }
    template <class F> void List(Out& out, const char* k, int n, F f) { out.arr(k); for (int j = 0; j < n; ++j) out.w.Double(f(j)); out.end(); }
}
static void Curve(const JV& c, Out& out) {
    const auto k = Days(c["k"], 1);
    const double s = D(c["scale"]);
    const auto l = Nums(c["l"], s), r = Nums(c["r"], s);
    const int n = static_cast<int>(c["cf"].Size()), first = I(c["k"][0]) - I(c["span"]);
    PiecewiseConstant_ pc(k, r);
    PiecewiseLinear_ pl(k, l, r);
    if (B(c["update"])) {      // build with other values, change them and update
        PiecewiseConstant_ a(k, Vector_<>(k.size(), 3.0));
        a.fRight_ = r; a.Update(); pc.sofar_ = a.sofar_;
        PiecewiseLinear_ b(k, Vector_<>(k.size(), 3.0), Vector_<>(k.size(), -1.0));
        b.fLeft_ = l; b.fRight_ = r; b.Update(); pl = b;
    }
    auto at = [&](int j) { return Day(first + j); };
    List(out, "cf", n, [&](int j) { return PWC::F(pc, at(j)); });
    List(out, "knot", n, [&](int j) { bool b; (void) PWC::F(pc, at(j), &b); return b ? 1.0 : 0.0; });
    List(out, "ci", n, [&](int j) { return pc.IntegralTo(at(j)); });
    List(out, "vr", n, [&](int j) { return pl.ValueAt(at(j)); });
    List(out, "vl", n, [&](int j) { return pl.ValueAt(at(j), false); });
    List(out, "li", n, [&](int j) { return pl.IntegralTo(at(j)); });
    List(out, "cx", n, [&](int j) { return PWC::Integral(pc, at(j), at(n - 1 - j)); });
    Handle_<DiscountCurve_> base(NewDiscountPWLF("base", PiecewiseLinear_({Day(1)}, {s}, {2 * s})));
    std::unique_ptr<DiscountCurve_> d0(NewDiscountPWLF("d", pl)), d1(NewDiscountPWLF("d", pl, base));
    List(out, "d0", n, [&](int j) { return (*d0)(at(0), at(j)); });
    List(out, "d0b", n, [&](int j) { return (*d0)(at(j), at(n - 1)); });
    List(out, "d1", n, [&](int j) { return (*d1)(at(0), at(j)); });
    List(out, "b", n, [&](int j) { return (*base)(at(0), at(j)); });
    Handle_<DiscountCurve_> other(NewDiscountPWLF("other", PiecewiseLinear_({Day(0)}, {0.0}, {0.0})));
    YCComponent_::substitutions_t sub;
    sub[base.get()] = handle_cast<YCComponent_>(other);
    std::unique_ptr<YCComponent_> cl(d1->Clone("c", sub)), cl2(d1->Clone("c", YCComponent_::substitutions_t()));
    Vector_<const YCComponent_*> all;
    d1->Poll(&all);
    out.kv("poll", all.size() == 2 && all[0] == d1.get() && all[1] == base.get());
    List(out, "cl", n, [&](int j) { return (*dynamic_cast<DiscountCurve_*>(cl.get()))(at(0), at(j)); });
    List(out, "cl2", n, [&](int j) { return (*dynamic_cast<DiscountCurve_*>(cl2.get()))(at(0), at(j)); });
}
static void Grid2(const JV& c, Out& out) {
    const double s = D(c["scale"]), o = D(c["shift"]), fs = D(c["fscale"]);
    const auto x = Nums(c["x"], s, o), y = Nums(c["y"], s, o);
    Matrix_<> f(static_cast<int>(x.size()), static_cast<int>(y.size()));
    for (int i = 0; i < f.Rows(); ++i) for (int j = 0; j < f.Cols(); ++j) f(i, j) = fs * D(c["f"][static_cast<rapidjson::SizeType>(i)][static_cast<rapidjson::SizeType>(j)]);
    std::unique_ptr<Interp2_> two(Interp::NewLinear2("i", x, y, f));
    const int nx = static_cast<int>(c["v"].Size()), ny = static_cast<int>(c["v"][0].Size());
    auto px = [&](int i) { return s * (D(c["x"][0]) + 0.25 * (i - 4)) + o; };
    auto py = [&](int i) { return s * (D(c["y"][0]) + 0.25 * (i - 4)) + o; };
    out.arr("v");
    for (int i = 0; i < nx; ++i) { out.w.StartArray(); for (int j = 0; j < ny; ++j) out.w.Double((*two)(px(i), py(j))); out.w.EndArray(); }
    out.end();
    if (f.Rows() == 1) {
        std::unique_ptr<Interp1_> one(Interp::NewLinear("i", y, f.Row(0)));
        std::map<double, double> m;
        for (int j = 0; j < f.Cols(); ++j) m[y[static_cast<size_t>(j)]] = f(0, j);
        Interp1Linear_ two1("i", m);
        List(out, "one", ny, [&](int j) { return (*one)(py(j)); });
        List(out, "map", ny, [&](int j) { return two1(py(j)); });
    }
}
static void Spline(const JV& c, Out& out) {
    const double s = D(c["scale"]), o = D(c["shift"]), fs = D(c["fscale"]);
    auto bd = [&](const JV& b) { double v = fs * D(b[1]); for (int k = 0; k < I(b[0]); ++k) v /= s; return Interp::Boundary_(I(b[0]), v); };
    std::unique_ptr<Interp1_> p(Interp::NewCubic("s", Nums(c["k"], s, o), Nums(c["f"], fs), bd(c["bl"]), bd(c["br"])));
    const int n = static_cast<int>(c["v"].Size());
    auto at = [&](int j) { return s * (D(c["k"][0]) + 0.25 * j) + o; };
    List(out, "v", n, [&](int j) { return (*p)(at(j)); });
    out.kv("in", p->IsInBounds(at(0)) && p->IsInBounds(at(n - 1)) && !p->IsInBounds(at(-1)) && !p->IsInBounds(at(n)));
}
static void Reject(const JV& c, Out& out) {
    const auto x = Nums(c["x"]), f = Nums(c["f"]);
    Vector_<> g(f);
    const auto k = Days(c["x"], 1);
    const Vector_<> other = Nums(c["g"]);
    out.kv("lin", !Throws([&] { std::unique_ptr<Interp1_> p(Interp::NewLinear("i", x, f)); }));
    Matrix_<> m(static_cast<int>(f.size()), 2), mt(2, static_cast<int>(f.size()));
    out.kv("lin2", !Throws([&] { std::unique_ptr<Interp2_> p(Interp::NewLinear2("i", x, Vector_<>({0.0, 1.0}), m)); }));
    out.kv("lin2t", !Throws([&] { std::unique_ptr<Interp2_> p(Interp::NewLinear2("i", Vector_<>({0.0, 1.0}), x, mt)); }));
    out.kv("cub", !Throws([&] { std::unique_ptr<Interp1_> p(Interp::NewCubic("i", x, f, Interp::Boundary_(I(c["o1"]), 0.0), Interp::Boundary_(I(c["o2"]), 0.0))); }));
    out.kv("pc", !Throws([&] { PiecewiseConstant_ p(k, f); }));
    out.kv("pl", !Throws([&] { PiecewiseLinear_ p(k, f, other); }));
}
int main() { return RunDriver({{"curve", Curve}, {"interp", Grid2}, {"spline", Spline}, {"reject", Reject}}); }

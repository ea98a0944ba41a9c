// Driver for arrays, cubes, matrices, reports and table layout.
#include "common.hpp"
#include "sobolstub.hpp"
#include <dal/platform/platform.hpp>
#include <dal/math/cell.hpp>
#include <dal/math/cellutils.hpp>
#include <dal/math/matrix/matrixs.hpp>
#include <dal/math/matrix/matrixutils.hpp>
#include <dal/math/ndarray.hpp>
#include <dal/risk/report.hpp>
#include <memory>
using namespace Dal;
namespace {
    Vector_<int> Ints(const JV& v) { Vector_<int> r; for (auto& x : v.GetArray()) r.push_back(I(x)); return r; }
    template <class F> void Each(const Vector_<int>& sz, F f) {
        Vector_<int> c(sz.size(), 0);
        for (auto s : sz) if (s <= 0) return;
        for (;;) {
            f(c);
            int k = static_cast<int>(sz.size()) - 1;
            while (k >= 0 && ++c[static_cast<size_t>(k)] == sz[static_cast<size_t>(k)]) c[static_cast<size_t>(k--)] = 0;
            if (k < 0) return;
        }
    }
    void Sz(Out& out, const Vector_<int>& s) { out.arr("sz"); for (auto x : s) out.w.Int(x); out.end(); }
    void Show(Out& out, const char* k, const ArrayN_<>& a) {
        out.w.Key(k); out.w.StartObject();
        Sz(out, a.Sizes());
        out.arr("v");
        Each(a.Sizes(), [&](const Vector_<int>& c) { out.w.Double(a[c]); });
        out.end();
        out.w.EndObject();
    }
    void Show(Out& out, const char* k, const Cube_<>& a) {
        out.w.Key(k); out.w.StartObject();
        Sz(out, {a.SizeI(), a.SizeJ(), a.SizeK()});
        out.arr("v");
        for (int i = 0; i < a.SizeI(); ++i)
            for (int j = 0; j < a.SizeJ(); ++j) {
                if (a.SizeK() == 0) continue;
                int m = 0;
                for (const double* p = a.SliceBegin(i, j); p != a.SliceEnd(i, j); ++p, ++m) { if (m < a.SizeK() && a(i, j, m) == *p && a[Vector_<int>({i, j, m})] == *p) out.w.Double(*p); else out.w.String("slice differs"); }
                if (m != a.SizeK()) out.w.String("slice length");
            }
        out.end();
        out.w.EndObject();
    }
    void Show(Out& out, const char* k, Matrix_<>& a) {
        const Matrix_<>& ca = a;
        out.w.Key(k); out.w.StartObject();
        Sz(out, {a.Rows(), a.Cols()});
        if (a.Empty() != (a.Rows() * a.Cols() == 0)) out.kv("bad", "Empty()");
        out.arr("v");
        const bool some = a.Rows() * a.Cols() > 0;
        auto p = ca.begin();
        for (int i = 0; some && i < a.Rows(); ++i)
            for (int j = 0; j < a.Cols(); ++j, ++p) {
                const double x = a(i, j);
                if (ca(i, j) == x && a.Row(i)[j] == x && ca.Row(i)[j] == x && a.Col(j)[i] == x && ca.Col(j)[i] == x && *(ca.Row(i).begin() + j) == x && *(ca.Col(j).begin() + static_cast<size_t>(i)) == x && *p == x) out.w.Double(x);
                else out.w.String("views differ");
            }
        if (some && (p != ca.end() || ca.Row(0).size() != a.Cols() || static_cast<int>(ca.Col(0).size()) != a.Rows())) out.w.String("view sizes");
        out.end();
        out.w.EndObject();
    }
    double& At(ArrayN_<>& a, const Vector_<int>& c) { return a[c]; }
    double& At(Cube_<>& a, const Vector_<int>& c) { return a(c[0], c[1], c[2]); }
    double& At(Matrix_<>& a, const Vector_<int>& c) { return a(c[0], c[1]); }
    void Size(ArrayN_<>& a, const Vector_<int>& s) { a.Resize(s); }
    void Size(Cube_<>& a, const Vector_<int>& s) { a.Resize(s[0], s[1], s[2]); }
    void Size(Matrix_<>& a, const Vector_<int>& s) { a.Resize(s[0], s[1]); }
    void Swap(ArrayN_<>& a, ArrayN_<>& b, int) { a.Swap(&b); }
    void Swap(Cube_<>& a, Cube_<>& b, int) { a.Swap(&b); }
    void Swap(Matrix_<>& a, Matrix_<>& b, int k) { if (k % 2) a.Swap(&b); else a.swap(b); }
    template <class T> bool More(char, T&, T&, const Vector_<int>&, double, Out&) { return false; }
    bool More(char op, ArrayN_<>& a, ArrayN_<>&, const Vector_<int>& x, double val, Out& out) {
        if (op != 'Y') return false;
        Vector_<> v, old;
        Each(a.Sizes(), [&](const Vector_<int>& c) { old.push_back(a[c]); });
        for (int k = 0; k < x[0]; ++k) v.push_back(val + k);
        const bool t = Throws([&] { a.Swap(&v); });
        out.kv("ok", !t && v == old);
        return true;
    }
    bool More(char op, Matrix_<>& a, Matrix_<>& b, const Vector_<int>&, double, Out&) {
        if (op == 'V') b = std::move(a);
        else if (op == 'A') Matrix::Append(&a, b);
        else if (op == 'T') a = Matrix::MakeTranspose(a);
        else return false;
        if (op == 'V') { Matrix_<> t(std::move(b)); Matrix_<> u(t); b = u; }
        return true;
    }
    template <class T> void Run(const JV& c, Out& out, std::unique_ptr<T> a, std::unique_ptr<T> b) {
        out.arr("s");
        int m = 0;
        for (auto& h : c["h"].GetArray()) {
            out.w.StartObject();
            const char op = S(h["op"])[0];
            const Vector_<int> x = Ints(h["x"]);
            const double val = 10 + m++;
            if (op == 's') {}
            else if (op == 'W') At(*a, x) = val;
            else if (op == 'R') Size(*a, x);
            else if (op == 'F') a->Fill(val);
            else if (op == 'M') *a *= 2.0;
            else if (op == 'X') Swap(*a, *b, m);
            else if (op == 'C') { *b = *a; T t(*b); *b = t; }
            else if (!More(op, *a, *b, x, val, out)) THROW("unknown operation");
            Show(out, "a", *a);
            Show(out, "b", *b);
            out.w.EndObject();
        }
        out.end();
    }
    Cell_ AsCell(int v) { return v ? Cell_(static_cast<double>(v)) : Cell_(); }
    int AsInt(const Cell_& c) { return Cell::IsEmpty(c) ? 0 : static_cast<int>(Cell::ToDouble(c)); }
}
static void Grid(const JV& c, Out& out) {
    const std::string k = S(c["kind"]);
    const auto sa = Ints(c["h"][0]["a"]["sz"]), sb = Ints(c["h"][0]["b"]["sz"]);
    if (k == "array") Run<ArrayN_<>>(c, out, std::make_unique<ArrayN_<>>(sa), std::make_unique<ArrayN_<>>(sb, 7.0));
    else if (k == "cube") {
        auto b = std::make_unique<Cube_<>>();
        b->Resize(sb[0], sb[1], sb[2]);
        b->Fill(7.0);
        Run<Cube_<>>(c, out, std::make_unique<Cube_<>>(sa[0], sa[1], sa[2]), std::move(b));
    } else Run<Matrix_<>>(c, out, std::make_unique<Matrix_<>>(sa[0], sa[1]), std::make_unique<Matrix_<>>(sb[0], sb[1], 7.0));
}
static void Rep(const JV& c, Out& out) {
    Vector_<Report::Axis_> axes;
    for (size_t k = 0; k < c["sh"].Size(); ++k) {
        Report::Axis_ a;
        a.name_ = DS(c["names"][static_cast<rapidjson::SizeType>(k)]);
        a.size_ = I(c["sh"][static_cast<rapidjson::SizeType>(k)][0]);
        for (int j = 0; j < I(c["sh"][static_cast<rapidjson::SizeType>(k)][1]); ++j) a.labels_.push_back(String_("l" + std::to_string(j)));
        axes.push_back(a);
    }
    Report_ r("r", axes);
    const Report_& cr = r;
    auto addr = [&](const JV& x) { auto ad = cr.MakeAddress(); for (size_t k = axes.size(); k-- > 0;) ad[axes[k].name_] = I(x[static_cast<rapidjson::SizeType>(k)]); return ad; };
    out.arr("s");
    int m = 0;
    for (auto& h : c["h"].GetArray()) {
        out.w.StartObject();
        const char op = S(h["op"])[0];
        const double val = 10 + m++;
        double res = 0;
        const auto& x = h["x"];
        const bool t = Throws([&] {
            if (op == 'W') r[addr(x)] = val;
            else if (op == 'R') res = cr[addr(x)];
            else if (op == 'S') { Vector_<> v; for (int k = 1; k <= I(x[0]); ++k) v.push_back(val + k); r.SetAll(v); }
            else { Vector_<Cell_> v; for (int j = 1; j <= I(x[2]); ++j) v.push_back(Cell_(val + j)); r.AddHeaderRow(axes[static_cast<size_t>(I(x[0]) - 1)].name_, I(x[1]), v); }
        });
        out.kv("ok", !t);
        out.kv("r", t ? 0.0 : res);
        Vector_<int> sz;
        for (auto& a : axes) sz.push_back(cr.Size(a.name_));
        Sz(out, sz);
        out.arr("v");
        Each(sz, [&](const Vector_<int>& loc) {
            auto ad = cr.MakeAddress();
            for (size_t k = 0; k < axes.size(); ++k) ad[axes[k].name_] = loc[k];
            double y = 0;
            if (Throws([&] { y = cr[ad]; })) out.w.String("rejected"); else out.w.Double(y);
        });
        out.end();
        out.arr("hd");
        for (auto& a : axes) {
            const auto& hd = cr.Header(a.name_);
            out.w.StartArray();
            for (int i = 0; i < hd.values_.Rows(); ++i) { out.w.StartArray(); for (int j = 0; j < hd.values_.Cols(); ++j) out.w.Int(AsInt(hd.values_(i, j))); out.w.EndArray(); }
            out.w.EndArray();
        }
        out.end();
        out.w.EndObject();
    }
    out.end();
    out.kv("unknown", Throws([&] { auto ad = cr.MakeAddress(); ad["nosuch"] = 1; }) && Throws([&] { (void) cr.Size("nosuch"); }) && Throws([&] { (void) cr.Header("nosuch"); }) && Throws([&] { r.AddHeaderRow("nosuch", 0, {}); }));
}
static void Made(const JV& c, Out& out) {
    Vector_<Report::Axis_> axes;
    for (auto& a : c["axes"].GetArray()) { Report::Axis_ x; x.name_ = DS(a[0]); x.size_ = I(a[1]); axes.push_back(x); }
    out.kv("ok", !Throws([&] { Report_ r("r", axes); }));
}
static void Layout(const JV& c, Out& out) {
    std::vector<Matrix_<Cell_>> args;
    int k = 0;
    for (auto& a : c["args"].GetArray()) {
        ++k;
        args.emplace_back(I(a[0]), I(a[1]));
        for (int i = 0; i < I(a[0]); ++i) for (int j = 0; j < I(a[1]); ++j) args.back()(i, j) = Cell_(static_cast<double>(100 * k + 10 * (i + 1) + j + 1));
    }
    Vector_<const Matrix_<Cell_>*> ps;
    for (auto& a : args) ps.push_back(&a);
    Matrix_<Cell_> t;
    const bool bad = Throws([&] { t = Matrix::Format(ps, DS(c["f"])); });
    out.kv("ok", !bad);
    if (bad) return;
    out.arr("t");
    for (int i = 0; i < t.Rows(); ++i) { out.w.StartArray(); for (int j = 0; j < t.Cols(); ++j) out.w.Int(AsInt(t(i, j))); out.w.EndArray(); }
    out.end();
}
int main() { return RunDriver({{"grid", Grid}, {"report", Rep}, {"made", Made}, {"layout", Layout}}); }

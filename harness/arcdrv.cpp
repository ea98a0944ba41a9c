// Driver for archives: builds an object graph, writes it in every form, reads it back and describes what came back.
#include "common.hpp"
#include "sobolstub.hpp"
#include <dal/platform/platform.hpp>
#include <dal/curve/piecewiseconstant.hpp>
#include <dal/curve/piecewiselinear.hpp>
#include <dal/curve/ycimp.hpp>
#include <dal/curve/discount.hpp>
#include <dal/indice/fixings.hpp>
#include <dal/math/cell.hpp>
#include <dal/math/cellutils.hpp>
#include <dal/math/interp/interp.hpp>
#include <dal/math/interp/interp2d.hpp>
#include <dal/math/interp/interpcubic.hpp>
#include <dal/math/random/pseudorandom.hpp>
#include <dal/model/blackscholes.hpp>
#include <dal/model/dupire.hpp>
#include <dal/risk/report.hpp>
#include <dal/script/event.hpp>
#include <dal/storage/bag.hpp>
#include <dal/storage/box.hpp>
#include <dal/storage/json.hpp>
#include <dal/storage/splat.hpp>
#include <dal/time/date.hpp>
#include <dal/time/dateutils.hpp>
#include <dal/time/datetime.hpp>
#include <dal/time/datetimeutils.hpp>
#include <cstdlib>
#include <sstream>
#include <typeinfo>
using namespace Dal;

namespace Dal { DiscountCurve_* NewDiscountPWLF(const String_& name, const PiecewiseLinear_& fwds, const Handle_<DiscountCurve_>& base); }

namespace {
    using sz = rapidjson::SizeType;
    Date_ AsDate(const JV& v) { return Date_(I(v[0]), I(v[1]), I(v[2])); }
    DateTime_ AsDateTime(const JV& v) { return DateTime_(AsDate(v), I(v[3]) / 3600, I(v[3]) / 60 % 60, I(v[3]) % 60); }
    Cell_ AsCell(const JV& v) {
        const std::string t = S(v["t"]);
        if (t == "n") return Cell_(D(v["v"]));
        if (t == "b") return Cell_(B(v["v"]));
        if (t == "s") return Cell_(DS(v["v"]));
        if (t == "d") return Cell_(AsDate(v["v"]));
        if (t == "dt") return Cell_(AsDateTime(v["v"]));
        return Cell_();
    }
    template <class F> auto Vec(const JV& v, F f) { Vector_<decltype(f(v))> r; for (auto& x : v.GetArray()) r.push_back(f(x)); return r; }
    Vector_<> Ds(const JV& v) { return Vec(v, [](const JV& x) { return D(x); }); }
    Vector_<String_> Ss(const JV& v) { return Vec(v, [](const JV& x) { return DS(x); }); }
    template <class E, class F> Matrix_<E> Mat(const JV& v, F f) {
        const int r = static_cast<int>(v.Size()), c = r ? static_cast<int>(v[0].Size()) : 0;
        Matrix_<E> m(r, c);
        for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = f(v[static_cast<sz>(i)][static_cast<sz>(j)]);
        return m;
    }
    Matrix_<> DMat(const JV& v) { return Mat<double>(v, [](const JV& x) { return D(x); }); }
    Matrix_<Cell_> CMat(const JV& v) { return Mat<Cell_>(v, AsCell); }

    Handle_<Storable_> Make(const JV& n, const std::vector<Handle_<Storable_>>& sofar) {
        const std::string t = S(n["type"]);
        const String_ name = DS(n["name"]);
        const JV& f = n["f"];
        Storable_* r = nullptr;
        if (t == "Bag") {
            Bag_::map_t m;
            for (sz i = 0; i < n["kids"].Size(); ++i) m.insert(std::make_pair(DS(n["keys"][i]), sofar[static_cast<size_t>(I(n["kids"][i]) - 1)]));
            r = new Bag_(name, m);
        }
        else if (t == "Box") r = new Box_(name, CMat(f["contents"]));
        else if (t == "Interp1Linear_v1") r = new Interp1Linear_(name, Ds(f["x"]), Ds(f["f"]));
        else if (t == "Interp2Linear_v1") r = new Interp2Linear_(name, Ds(f["x"]), Ds(f["y"]), DMat(f["f"]));
        else if (t == "Cubic1") r = Interp::NewCubic(name, Ds(f["x"]), Ds(f["f"]), Interp::Boundary_(2, D(f["lhs"])), Interp::Boundary_(2, D(f["rhs"])));
        else if (t == "BSModelData_v1") r = new BSModelData_(name, D(f["spot"]), D(f["vol"]), D(f["rate"]), D(f["div"]));
        else if (t == "DupireModelData_v1") r = new DupireModelData_(name, D(f["spot"]), D(f["rate"]), D(f["repo"]), Ds(f["spots"]), Ds(f["times"]), DMat(f["vols"]));
        else if (t == "PiecewiseConstant_v1") r = new PiecewiseConstant_(Vec(f["knotDates"], AsDate), Ds(f["fRight"]), name);
        else if (t == "PseudoRSG_v1") r = new PseudoRSG_(name, D(f["seed"]), D(f["n_dim"]), B(f["precise"]));
        else if (t == "ScriptProductData_v1") r = new Script::ScriptProductData_(name, Vec(f["dates"], AsCell), Ss(f["events"]));
        else if (t == "Fixings") {
            std::map<DateTime_, double> m;
            for (sz i = 0; i < f["fixings"].Size(); ++i) m[AsDateTime(f["fixing_times"][i])] = D(f["fixings"][i]);
            r = new Fixings_(name, m);
        }
        else if (t == "DiscountPWLF_v1") {
            Handle_<DiscountCurve_> base;
            if (n["kids"].Size()) base = handle_cast<DiscountCurve_>(sofar[static_cast<size_t>(I(n["kids"][0]) - 1)]);
            r = NewDiscountPWLF(name, PiecewiseLinear_(Vec(f["knotDates"], AsDate), Ds(f["leftVals"]), Ds(f["rightVals"])), base);
        }
        else if (t == "Report_v1") {
            Vector_<Report::Axis_> axes;
            for (sz i = 0; i < f["sizes"].Size(); ++i) {
                Report::Axis_ a;
                a.name_ = DS(f["axis_names"][i]); a.size_ = I(f["sizes"][i]); a.labels_ = Ss(f["header_labels"][i]);
                axes.push_back(a);
            }
            auto* rep = new Report_(name, axes);
            r = rep;
            for (sz i = 0; i < axes.size(); ++i) {
                int row = 0;
                for (auto& v : f["header_values"][i].GetArray()) rep->AddHeaderRow(axes[i].name_, row++, Vec(v, AsCell));
            }
            rep->SetAll(Ds(f["vals"]));
        }
        else throw std::runtime_error("driver: unknown type");
        return Handle_<Storable_>(r);
    }

    struct Dump_ {
        Out& out;
        std::map<const Storable_*, int> seen;
        std::vector<const Storable_*> order;
        int Ref(const Storable_* s) {
            if (!s) return 0;
            auto p = seen.find(s);
            if (p != seen.end()) return p->second;
            order.push_back(s);
            return seen[s] = static_cast<int>(order.size());
        }
        void Num(double d) { char b[40]; std::snprintf(b, sizeof b, "%.17g", d); out.w.String(b); }
        void Nums(const char* k, const Vector_<>& v) { out.arr(k); for (double d : v) Num(d); out.end(); }
        void N(const char* k, double d) { out.key(k); Num(d); }
        void C(const Cell_& c) {
            if (Cell::IsEmpty(c)) out.w.String("blank");
            else if (Cell::IsBool(c)) out.w.String(Cell::ToBool(c) ? "b:true" : "b:false");
            else if (Cell::IsDate(c)) out.w.String(("d:" + Date::ToString(Cell::ToDate(c))).c_str());
            else if (Cell::IsDateTime(c)) out.w.String(("dt:" + DateTime::ToString(Cell::ToDateTime(c))).c_str());
            else if (Cell::IsString(c)) out.w.String((std::string("s:") + Cell::ToString(c).c_str()).c_str());
            else Num(Cell::ToDouble(c));
        }
        void Cells(const char* k, const Matrix_<Cell_>& m) {
            out.arr(k);
            for (int i = 0; i < m.Rows(); ++i) { out.w.StartArray(); for (int j = 0; j < m.Cols(); ++j) C(m(i, j)); out.w.EndArray(); }
            out.end();
        }
        void One(const Storable_* s) {
            out.w.StartObject();
            out.kv("class", std::string(typeid(*s).name()));
            out.kv("type", s->type_);
            out.kv("name", s->name_);
            if (auto* b = dynamic_cast<const Bag_*>(s)) {
                out.arr("keys"); for (auto& kv : b->contents_) out.w.String(kv.first.c_str()); out.end();
                out.arr("kids"); for (auto& kv : b->contents_) out.w.Int(Ref(kv.second.get())); out.end();
            }
            else if (auto* b = dynamic_cast<const Box_*>(s)) Cells("cells", b->contents_);
            else if (auto* i = dynamic_cast<const Interp1Linear_*>(s)) { Nums("x", i->x()); Nums("f", i->f()); }
            else if (auto* i = dynamic_cast<const Interp2Linear_*>(s)) {
                Nums("x", i->x()); Nums("y", i->y());
                Vector_<> v;
                for (double x : i->x()) for (double y : i->y()) v.push_back((*i)(x, y));
                Nums("v", v);
            }
            else if (auto* i = dynamic_cast<const Interp1_*>(s)) { Vector_<> v; for (double x = -1; x < 12; x += 0.31) v.push_back((*i)(x)); Nums("v", v); }
            else if (auto* m = dynamic_cast<const BSModelData_*>(s)) { N("spot", m->spot_); N("vol", m->vol_); N("rate", m->rate_); N("div", m->div_); }
            else if (auto* m = dynamic_cast<const DupireModelData_*>(s)) {
                N("spot", m->spot_); N("rate", m->rate_); N("repo", m->repo_); Nums("spots", m->spots_); Nums("times", m->times_);
                out.arr("vols"); for (int i = 0; i < m->vols_.Rows(); ++i) { out.w.StartArray(); for (int j = 0; j < m->vols_.Cols(); ++j) Num(m->vols_(i, j)); out.w.EndArray(); } out.end();
            }
            else if (auto* p = dynamic_cast<const PiecewiseConstant_*>(s)) {
                out.arr("dates"); for (auto& d : p->knotDates_) out.w.String(Date::ToString(d).c_str()); out.end();
                Nums("f", p->fRight_);
                if (!p->knotDates_.empty()) N("int", p->IntegralTo(p->knotDates_.back().AddDays(5)));
            }
            else if (auto* p = dynamic_cast<const PseudoRSG_*>(s)) {
                out.kv("dim", p->NDim());
                Vector_<> v(static_cast<int>(p->NDim()));
                p->FillUniform(&v); Nums("u", v); p->FillNormal(&v); Nums("n", v);
            }
            else if (auto* p = dynamic_cast<const Script::ScriptProductData_*>(s)) {
                auto prod = p->Product();
                out.arr("dates"); for (auto& d : prod.EventDates()) out.w.String(Date::ToString(d).c_str()); out.end();
                std::stringstream text;
                prod.Debug(text);
                out.kv("text", text.str());
            }
            else if (auto* p = dynamic_cast<const Fixings_*>(s)) {
                out.arr("at"); for (auto& kv : p->vals_) out.w.String(DateTime::ToString(kv.first).c_str()); out.end();
                out.arr("v"); for (auto& kv : p->vals_) Num(kv.second); out.end();
            }
            else if (auto* p = dynamic_cast<const DiscountCurve_*>(s)) {
                Vector_<> v;
                for (int d = -20; d < 900; d += 37) v.push_back((*p)(Date_(2020, 1, 1), Date_(2020, 1, 1).AddDays(d)));
                Nums("df", v);
                Vector_<const YCComponent_*> all;
                p->Poll(&all);
                out.arr("kids"); if (all.size() > 1) out.w.Int(Ref(all[1])); out.end();
            }
            else if (auto* p = dynamic_cast<const Report_*>(s)) {
                Vector_<String_> axes = p->Axes();
                out.arr("axes"); for (auto& a : axes) out.w.String(a.c_str()); out.end();
                std::vector<int> size;
                out.arr("size"); for (auto& a : axes) { size.push_back(p->Size(a)); out.w.Int(size.back()); } out.end();
                for (auto& a : axes) {
                    out.arr(("labels " + a).c_str()); for (auto& l : p->Header(a).labels_) out.w.String(l.c_str()); out.end();
                    Cells(("values " + a).c_str(), p->Header(a).labels_.empty() ? Matrix_<Cell_>() : p->Header(a).values_);
                }
                Vector_<> v;
                std::vector<int> at(size.size(), 0);
                bool more = true;
                for (int n : size) more = more && n > 0;
                while (more) {
                    auto loc = p->MakeAddress();
                    for (size_t i = 0; i < at.size(); ++i) loc[axes[i]] = at[i];
                    v.push_back((*p)[loc]);
                    size_t i = 0;
                    while (i < at.size() && ++at[i] == size[i]) at[i++] = 0;
                    more = i < at.size();
                }
                Nums("vals", v);
            }
            else out.kv("what", "unknown");
            out.w.EndObject();
        }
        void All(const Storable_* root) {
            Ref(root);
            for (size_t i = 0; i < order.size(); ++i) One(order[i]);
        }
    };
    template <class F> void Form(Out& out, const char* k, F read) {
        Handle_<Storable_> got;
        std::string err;
        try { got = read(); } catch (const std::exception& e) { err = e.what(); }
        if (!err.empty() || !got) { out.kv(k, ("rejected: " + (err.empty() ? std::string("null") : err.substr(0, 150)))); return; }
        Dump_ d{out, {}, {}};
        out.arr(k);
        d.All(got.get());
        out.end();
    }
    struct Scratch_ {
        std::string dir;
        Scratch_() { char t[] = "/tmp/arcdrv.XXXXXX"; if (!mkdtemp(t)) std::abort(); dir = t; }
        ~Scratch_() { remove((dir + "/f").c_str()); rmdir(dir.c_str()); }
        String_ File() const { return String_(dir + "/f"); }
    };
}

static std::vector<Handle_<Storable_>> Nodes(const JV& c) {
    std::vector<Handle_<Storable_>> v;
    for (auto& n : c["nodes"].GetArray()) v.push_back(Make(n, v));
    return v;
}

static void RoundTrip(const JV& c, Out& out) {
    Scratch_ scratch;
    const std::string forms = S(c["forms"]);
    // drawing from a generator changes it, so every form starts from a fresh graph
    Form(out, "orig", [&] { return Nodes(c).back(); });
    if (forms.find('j') != std::string::npos) {
        String_ text;
        Form(out, "json", [&] { text = JSON::WriteString(*Nodes(c).back()); return JSON::ReadString(text, true); });
        size_t n = 0;
        for (size_t p = text.find("\"~type\":"); p != String_::npos; p = text.find("\"~type\":", p + 1)) ++n;
        out.kv("written", n);
        Form(out, "jsonfile", [&] { JSON::WriteFile(*Nodes(c).back(), scratch.File()); return JSON::ReadFile(scratch.File(), true); });
    }
    if (forms.find('t') != std::string::npos) Form(out, "table", [&] { return UnSplat(Splat(*Nodes(c).back()), false); });
    if (forms.find('c') != std::string::npos) Form(out, "csv", [&] { SplatFile(scratch.File(), *Nodes(c).back()); return UnSplatFile(scratch.File(), false); });
}

static void Read(const JV& c, Out& out) {
    Scratch_ scratch;
    if (c.HasMember("json")) {
        Form(out, "json", [&] { return JSON::ReadString(DS(c["json"]), true); });
        Form(out, "jsonfile", [&] {
            FILE* f = fopen(scratch.File().c_str(), "wb");
            const std::string t = S(c["json"]);
            fwrite(t.data(), 1, t.size(), f);
            fclose(f);
            return JSON::ReadFile(scratch.File(), true);
        });
    }
    if (c.HasMember("table")) {
        const Matrix_<Cell_> m = CMat(c["table"]);
        Form(out, "table", [&] { return UnSplat(m, true); });
    }
    if (c.HasMember("nodes")) Form(out, "orig", [&] { return Nodes(c).back(); });
}

int main() {
    return RunDriver({{"round", RoundTrip}, {"read", Read}});
}

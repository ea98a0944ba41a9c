// Driver for storage: repository, global dates, environments, archives.
#include "common.hpp"
#include "sobolstub.hpp"
#include <dal/platform/platform.hpp>
#include <dal/math/matrix/matrixutils.hpp>
#include <dal/storage/_repository.hpp>
#include <dal/storage/archive.hpp>
#include <dal/storage/globals.hpp>
#include <dal/storage/storable.hpp>
#include <public/src/repository.hpp>
#include <ctime>
#include <memory>
using namespace Dal;

namespace {
    struct Obj_ : Storable_ {
        int id_;
        Obj_(const char* type, const String_& name, int id) : Storable_(type, name), id_(id) {}
        void Write(Archive::Store_&) const override {}
    };
    Vector_<int> Ids(const Vector_<Handle_<Storable_>>& v) {
        Vector_<int> r;
        for (auto& h : v) { auto* o = dynamic_cast<const Obj_*>(h.get()); r.push_back(o ? o->id_ : -1); }
        std::sort(r.begin(), r.end());
        return r;
    }
}

static void Repo(const JV& c, Out& out) {
    ObjectAccess_ repo;
    (void) repo.Erase(String_(""));
    std::vector<Handle_<Obj_>> obj(1);
    std::vector<String_> tag(1);
    std::vector<std::string> types;
    for (auto& o : c["objs"].GetArray()) types.push_back(S(o["type"]));
    int id = 0;
    for (auto& o : c["objs"].GetArray()) { ++id; obj.emplace_back(new Obj_(types[static_cast<size_t>(id) - 1].c_str(), DS(o["name"]), id)); tag.push_back(String_()); }
    out.arr("s");
    for (auto& h : c["h"].GetArray()) {
        const std::string op = S(h["op"]);
        const size_t o = static_cast<size_t>(I(h["o"]));
        out.w.StartObject();
        auto pattern = [&]() -> String_ {
            if (S(h["p"][0]) == "obj") return String_("^" + tag[static_cast<size_t>(I(h["p"][2]))] + "$");
            return DS(h["rx"]);
        };
        if (op == "A") { tag[o] = repo.Add(obj[o], RepositoryErase_(DS(h["p"][0]))); out.kv("tag", tag[o]); }
        else if (op == "F") {
            auto f = repo.Fetch(tag[o], true);
            out.kv("r", f.get() == nullptr ? 0 : f.get() == static_cast<const Storable_*>(obj[o].get()) ? 1 : 2);
            out.kv("throws", Throws([&] { (void) repo.Fetch(tag[o]); }));
        }
        else if (op == "S") { out.kvs("r", Ids(repo.Find(pattern()))); out.kvs("r2", Ids(FindRepository(pattern()))); }
        else if (op == "E") out.kv("r", repo.Erase(pattern()));
        else if (op == "X") out.kv("r", repo.Erase(*obj[o]) ? 1 : 0);
        else {
            Vector_<Handle_<Storable_>> two;
            two.push_back(handle_cast<Storable_>(obj[o]));
            two.push_back(handle_cast<Storable_>(obj[static_cast<size_t>(I(h["p"][0]))]));
            out.kv("r", EraseRepository(two));
        }
        out.kv("size", repo.Size());
        out.kv("size2", SizeRepository());
        out.kvs("all", Ids(repo.Find(String_(""))));
        out.w.EndObject();
    }
    out.end();
    (void) repo.Erase(String_(""));
}

// global dates and environments: a history interpreted with real scopes, left normally or by an exception
namespace {
    struct EntA_ : Environment::Entry_ { int id; explicit EntA_(int i) : id(i) {} };
    struct EntB_ : Environment::Entry_ { int id; explicit EntB_(int i) : id(i) {} };
    struct Unwind_ { int n; rapidjson::SizeType next; };
    struct Interp_ {
        const JV& h;
        Out& out;
        int Day(const Date_& d) {
            const time_t now = time(nullptr);
            const tm* t = localtime(&now);
            const int off = static_cast<int>(Date_(t->tm_year + 1900, t->tm_mon + 1, t->tm_mday) - d);
            return off == 0 || off == 1 ? 0 : static_cast<int>(d - Date_(2020, 2, 26));      // 1: midnight has passed
        }
        void Observe(const Environment_* env) {
            out.w.StartObject();
            out.kv("acc", Day(Global::Dates_::AccountingDate()));
            out.kv("ev", Day(Global::Dates_::EvaluationDate()));
            auto* a = Environment::Find<EntA_>(env);
            auto* b = Environment::Find<EntB_>(env);
            out.kv("fa", a ? a->id : 0);
            out.kv("fb", b ? b->id : 0);
            out.arr("a");
            for (auto* e : Environment::Collect<EntA_>(env)) out.w.Int(e->id);
            out.end();
            out.arr("b");
            for (auto* e : Environment::Collect<EntB_>(env)) out.w.Int(e->id);
            out.end();
            int n = 0;
            Environment::Iterate(env, [&](const Environment::Entry_&) { ++n; });
            out.kv("n", n);
            out.w.EndObject();
        }
        // runs from operation i until the scope it runs in is left; returns the next operation
        rapidjson::SizeType Run(rapidjson::SizeType i, const Environment_*& _env) {
            while (i < h.Size()) {
                const std::string op = S(h[i]["op"]);
                const int k = I(h[i]["k"]), v = I(h[i]["v"]);
                if (op == "S") {
                    const Date_ d = Date_(2020, 2, 26).AddDays(v);
                    if (k) Global::Dates_::SetEvaluationDate(d); else Global::Dates_::SetAccountingDate(d);
                    Observe(_env);
                    ++i;
                }
                else if (op == "C") return i + 1;
                else if (op == "X") throw Unwind_{v, i + 1};
                else {
                    rapidjson::SizeType next;
                    bool thrown = false;
                    try {
                        if (op == "O") {
                            const Date_ d = Date_(2020, 2, 26).AddDays(v);
                            std::unique_ptr<XGLOBAL::ScopedOverride_<Date_>> scope;
                            {
                                auto first = k ? XGLOBAL::SetEvaluationDateInScope(d) : XGLOBAL::SetAccountingDateInScope(d);
                                scope.reset(new XGLOBAL::ScopedOverride_<Date_>(std::move(first)));
                            }
                            Observe(_env);
                            next = Run(i + 1, _env);
                        }
                        else if (k == 0) { EntA_ e(v); ENV_ADD(e); Observe(_env); next = Run(i + 1, _env); }
                        else { EntB_ e(v); ENV_ADD(e); Observe(_env); next = Run(i + 1, _env); }
                    }
                    catch (Unwind_& u) {
                        if (--u.n > 0) throw;
                        next = u.next;
                    }
                    if (next > h.Size()) return next;         // the history ended inside the scope
                    Observe(_env);
                    i = next;
                }
            }
            return h.Size() + 1;
        }
    };
}

static void Globals(const JV& c, Out& out) {
    (void) ObjectAccess_().Erase(String_(""));
    Vector_<Handle_<Environment::Entry_>> vals;
    for (auto& b : c["base"].GetArray()) {
        if (I(b[0]) == 0) vals.push_back(Handle_<Environment::Entry_>(new EntA_(I(b[1]))));
        else vals.push_back(Handle_<Environment::Entry_>(new EntB_(I(b[1]))));
    }
    Environment::Base_ base(vals);
    const Environment_* env = vals.empty() && B(c["null"]) ? nullptr : &base;
    const Environment_* start = env;
    out.arr("s");
    Interp_{c["h"], out}.Run(0, env);
    out.end();
    out.kv("back", env == start);
    (void) ObjectAccess_().Erase(String_(""));
}

int main() {
    return RunDriver({{"repo", Repo}, {"globals", Globals}});
}

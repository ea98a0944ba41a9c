// Driver for the repository and the global dates used by several threads: explores schedules (sched.hpp) and
// reports the distinct histories; with FREE_RUNNING the threads run freely (for the race detector).
#ifdef FREE_RUNNING
#include <cstdarg>
#include <cstdio>
#include <functional>
#include <string>
#include <thread>
#include <vector>
namespace sched { inline void Log(const char*, ...) {} inline void Point() {} }
#else
#include "sched.hpp"
#endif
#include "common.hpp"
#include "sobolstub.hpp"
#include <dal/platform/platform.hpp>
#include <dal/math/cell.hpp>
#include <dal/storage/_repository.hpp>
#include <dal/storage/archive.hpp>
#include <dal/storage/globals.hpp>
#include <dal/time/date.hpp>
#include <dal/time/datetime.hpp>
#include <memory>
#include <thread>
using namespace Dal;
using sched::Log;

struct Obj_ : Storable_ {
    Obj_(const char* type, const String_& name) : Storable_(type, name) {}
    void Write(Archive::Store_&) const override {}
};

static void Body(const JV& prog) {
    ObjectAccess_ repo;
    (void) repo.Erase(String_(""));
    static const char* policy[] = {"NONE", "NAME_NONEMPTY", "NAME", "TYPE"};
    std::vector<Handle_<Obj_>> obj = {Handle_<Obj_>(), Handle_<Obj_>(new Obj_("A", "n")), Handle_<Obj_>(new Obj_("A", "n")), Handle_<Obj_>(new Obj_("A", "m")), Handle_<Obj_>(new Obj_("B", "n"))};
    std::vector<String_> tag(1);
    for (int k = 1; k <= 4; ++k) { tag.push_back(repo.Add(obj[static_cast<size_t>(k)], RepositoryErase_("NONE"))); }
    (void) repo.Erase(String_(""));
    bool dates = false;
    for (auto& ops : prog.GetArray()) for (auto& o : ops.GetArray()) dates |= S(o[0]) == "D" || S(o[0]) == "G";
    if (dates) { Global::Dates_::SetAccountingDate(Date_(2024, 1, 1)); Global::Dates_::SetEvaluationDate(Date_(2024, 1, 1)); }
    std::vector<std::thread> ts;
    int id = 0;
    for (auto& ops : prog.GetArray()) {
        ++id;
        ts.emplace_back([&, id] {
            for (auto& o : ops.GetArray()) {
                const char k = o[0].GetString()[0];
                const int a = I(o[1]);
                Log("c%d%c%d;", id, k, a);
                int r = 0;
                try {
                    if (k == 'A') (void) repo.Add(obj[static_cast<size_t>(a / 10)], RepositoryErase_(policy[a % 10]));
                    else if (k == 'F') { auto f = repo.Fetch(tag[static_cast<size_t>(a)], true); r = f.get() == nullptr ? 0 : f.get() == static_cast<const Storable_*>(obj[static_cast<size_t>(a)].get()) ? 1 : 2; }
                    else if (k == 'X') r = repo.Erase(*obj[static_cast<size_t>(a)]) ? 1 : 0;
                    else if (k == 'E') r = repo.Erase(String_("^~[AB]~"));
                    else if (k == 'S') r = repo.Size();
                    else if (k == 'D') { const Date_ d(2024, 1, static_cast<unsigned short>(a % 100)); if (a / 100) Global::Dates_::SetEvaluationDate(d); else Global::Dates_::SetAccountingDate(d); }
                    else if (k == 'G') r = static_cast<int>((a ? Global::Dates_::EvaluationDate() : Global::Dates_::AccountingDate()) - Date_(2023, 12, 31));
                    else if (k == 'W') {
                        FixHistory_ f;
                        f.vals_.insert(f.vals_.end(), std::make_pair(DateTime_(Date_(2024, 1, 1).AddDays(a % 10)), 1.0));
                        r = XGLOBAL::StoreFixings(a / 100 ? "EQ[A]>1M" : "EQ[A]", f, a / 10 % 10 == 1);
                    }
                    else if (k == 'H') for (auto& p : Global::Fixings_().History(a ? "EQ[A]>1M" : "EQ[A]").vals_) r += 1 << (p.first.Date() - Date_(2024, 1, 1));
                } catch (const std::exception& e) { Log("!%s;", e.what()); }
                Log("r%d%c%d;", id, k, r);
            }
        });
    }
    for (auto& t : ts) t.join();
    Log("end;");
}

#ifdef FREE_RUNNING
static void Run(const JV& c, Out& out) {
    for (int k = 0; k < I(c["random"]); ++k) Body(c["prog"]);
    out.kv("runs", I(c["random"]));
}
#else
static void Run(const JV& c, Out& out) {
    sched::Search s;
    std::map<std::string, uint64_t> seen;
    auto see = [&](const std::string& how) {
        std::string h(s.shm->out, s.shm->len);
        if (!how.empty()) h += "!" + how;
        else if (s.shm->status != 1) h += "!status " + std::to_string(s.shm->status);
        ++seen[h];
    };
    const std::function<void()> body = [&c] { Body(c["prog"]); };
    const bool all = s.Explore(body, I(c["bound"]), 0, static_cast<uint64_t>(I(c["limit"])), see);
    for (int k = 0; k < I(c["random"]); ++k)
        see(s.Run(body, {}, true, static_cast<uint64_t>(I(c["seed"]) * 100003 + k + 1), 50 + 150 * (k % 5), 0));
    out.kv("runs", static_cast<long long>(s.runs));
    out.kv("all", all);
    out.arr("hist");
    for (auto& h : seen) out.w.String(h.first.c_str());
    out.end();
}
#endif

int main() {
#ifndef FREE_RUNNING
    sched::G().nprocs = 1;
#endif
    return RunDriver({{"run", Run}});
}

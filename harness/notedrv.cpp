// Driver for notes in error messages and for value stacks.
#include "common.hpp"
#include "sobolstub.hpp"
#include <dal/math/stacks.hpp>
#include <dal/time/date.hpp>
#include <dal/time/datetime.hpp>
#include <condition_variable>
#include <mutex>
#include <thread>
using namespace Dal;
namespace {
    // the operations of all threads in one order; each thread does its own when its turn comes
    struct Script {
        const JV& ops; size_t next = 0; std::mutex m; std::condition_variable cv;
        std::vector<std::string> msg;
        explicit Script(const JV& o) : ops(o), msg(o.Size()) {}
        // the next operation of thread t, or -1 when there is none
        int Wait(int t) {
            std::unique_lock<std::mutex> l(m);
            cv.wait(l, [&] { return next >= ops.Size() || I(ops[static_cast<unsigned>(next)]["t"]) == t; });
            return next >= ops.Size() ? -1 : static_cast<int>(next);
        }
        void Done() { { std::lock_guard<std::mutex> l(m); ++next; } cv.notify_all(); }
    };
    Date_ Day(int v) { return Date_(2024, 1, 1).AddDays(v); }
    struct Stop {};
    void Run(Script& s, int t, int depth, int* i_, double* d_, String_* s_, Date_* x_);
    void Enter(Script& s, int t, int depth, const JV& o) {
        const std::string k = S(o["k"]);
        const int v = static_cast<int>(I(o["v"]));
        if (k == "int") { int value = v; NOTICE(value); s.Done(); Run(s, t, depth, &value, nullptr, nullptr, nullptr); }
        else if (k == "double") { double value = v + 0.5; NOTICE(value); s.Done(); Run(s, t, depth, nullptr, &value, nullptr, nullptr); }
        else if (k == "string") { String_ value = "text " + String::FromInt(v); NOTICE(value); s.Done(); Run(s, t, depth, nullptr, nullptr, &value, nullptr); }
        else if (k == "date") { Date_ value = Day(v); NOTICE(value); s.Done(); Run(s, t, depth, nullptr, nullptr, nullptr, &value); }
        else if (k == "time") { const DateTime_ value(Day(v), 0.25); NOTICE(value); s.Done(); Run(s, t, depth, nullptr, nullptr, nullptr, nullptr); }
        else if (k == "chars") { const std::string hold = "chars " + std::to_string(v); const char* value = hold.c_str(); NOTICE(value); s.Done(); Run(s, t, depth, nullptr, nullptr, nullptr, nullptr); }
        else if (k == "named") { int x = v; NOTICE2("a name", x); s.Done(); Run(s, t, depth, nullptr, nullptr, nullptr, nullptr); }
        else { const std::string hold = "note " + std::to_string(v); NOTE(hold.c_str()); s.Done(); Run(s, t, depth, nullptr, nullptr, nullptr, nullptr); }
    }
    void Run(Script& s, int t, int depth, int* i_, double* d_, String_* s_, Date_* x_) {
        for (;;) {
            const int n = s.Wait(t);
            if (n < 0) return;
            const JV& o = s.ops[static_cast<unsigned>(n)];
            const std::string op = S(o["op"]);
            bool done = false;
            try {
                if (op == "enter") { done = true; Enter(s, t, depth + 1, o); continue; }
                if (op == "leave") { s.Done(); return; }
                if (op == "set") {
                    const int v = static_cast<int>(I(o["v"]));
                    if (i_) *i_ = v;
                    if (d_) *d_ = v + 0.5;
                    if (s_) *s_ = "text " + String::FromInt(v);
                    if (x_) *x_ = Day(v);
                } else if (op == "throw") THROW("error " + std::to_string(n));
                else if (op == "require") { REQUIRE(n < 0, "error " + std::to_string(n)); }
                else if (op == "assure") { ASSURE(n < 0, String_("error " + std::to_string(n))); }
                else if (op == "script") THROW2("error " + std::to_string(n), ScriptError_);
                else if (op == "fine") { REQUIRE(n >= 0, "raised without cause"); ASSURE(n >= 0, "raised without cause"); REQUIRE2(n >= 0, "raised without cause", ScriptError_); }
            } catch (const Exception_& e) {
                size_t at;
                { std::lock_guard<std::mutex> l(s.m); at = s.next; }
                if (static_cast<int>(I(s.ops[static_cast<unsigned>(at)]["d"])) < depth) throw;
                s.msg[at] = std::string(dynamic_cast<const ScriptError_*>(&e) ? "script" : "plain") + e.what();
                s.Done();
                continue;
            }
            (void)done;
            s.Done();
        }
    }
}
static void Notes(const JV& c, Out& out) {
    Script s(c["h"]);
    std::vector<std::thread> th;
    for (int t = 1; t <= static_cast<int>(I(c["threads"])); ++t)
        th.emplace_back([&s, t] { Run(s, t, 0, nullptr, nullptr, nullptr, nullptr); });
    for (auto& x : th) x.join();
    out.arr("msg");
    for (auto& x : s.msg) out.w.String(x.c_str(), x.size());
    out.end();
}
namespace {
    template <class E_> E_ Val(int i);
    template <> int Val<int>(int i) { return i; }
    template <> String_ Val<String_>(int i) { return String_("value number " + std::to_string(i)); }
    int Num(int i) { return i; }
    int Num(const String_& s) { return s.empty() ? 0 : std::stoi(std::string(s.c_str()).substr(13)); }
    template <class K_> void Show(const K_& s, bool iter, Out& out) {
        out.w.StartArray();
        out.w.Int(static_cast<int>(s.Size()));
        out.w.Int(s.IsEmpty() ? 1 : 0);
        for (int i = 0; i < static_cast<int>(s.Size()); ++i) out.w.Int(Num(s[i]));
        if (!s.IsEmpty() && Num(s.Top()) != Num(s[0])) out.w.String("the top differs");
        out.w.EndArray();
        (void)iter;
    }
    template <class K_> auto Make(int n) -> decltype(K_(n)) { return K_(n); }
    template <class E_, bool fixed_, class K_> void Play(const JV& c, Out& out, std::unique_ptr<K_> a, std::unique_ptr<K_> b) {
        out.arr("s");
        int n = 0;
        for (auto& h : c["h"].GetArray()) {
            const std::string op = S(h["op"]);
            const int x = static_cast<int>(I(h["x"]));
            bool ok = true;
            int ret = 0;
            try {
                if (op == "push") { const E_ v = Val<E_>(n); if (n % 2) a->Push(v); else a->Push(Val<E_>(n)); }
                else if (op == "many") for (int i = 1; i <= x; ++i) a->Push(Val<E_>(n * 1000 + i));
                else if (op == "pop") { if (x == 1) a->Pop(); else a->Pop(x); }
                else if (op == "take") ret = Num(a->TopAndPop());
                else if (op == "set") { if (x == 0 && n % 2) a->Top() = Val<E_>(n); else (*a)[x] = Val<E_>(n); }
                else if (op == "reset") a->Reset();
                else if (op == "copy") *b = *a;
                else if (op == "back") *a = *b;
                else if (op == "fresh") b.reset(new K_(*a));
                else if (op == "self") { K_& r = *a; *a = r; }
                if constexpr (!fixed_) {
                    if (op == "clear") a->Clear();
                    else if (op == "move") *b = std::move(*a);
                    else if (op == "steal") b.reset(new K_(std::move(*a)));
                }
            } catch (const std::exception&) { ok = false; }
            ++n;
            out.w.StartArray();
            out.w.Bool(ok); out.w.Int(ret);
            Show(*a, !fixed_, out); Show(*b, !fixed_, out);
            if constexpr (!fixed_) {
                const K_& r = *a;
                out.w.StartArray();
                if (r.Capacity() < r.Size()) out.w.String("capacity below size");
                for (auto i = r.begin(); i != r.end(); ++i) out.w.Int(Num(*i));
                out.w.EndArray();
            }
            out.w.EndArray();
        }
        out.end();
    }
}
static void Stacks(const JV& c, Out& out) {
    const std::string k = S(c["kind"]);
    const int n = static_cast<int>(I(c["h"][0u]["x"]));
    if (k == "static8") { using K = StaticStack_<int, 8>; Play<int, true, K>(c, out, std::make_unique<K>(), std::make_unique<K>()); }
    else if (k == "static128") { using K = StaticStack_<String_>; Play<String_, true, K>(c, out, std::make_unique<K>(), std::make_unique<K>()); }
    else if (k == "int") { using K = Stack_<int, 16>; Play<int, false, K>(c, out, std::make_unique<K>(n), std::make_unique<K>()); }
    else { using K = Stack_<String_, 2>; Play<String_, false, K>(c, out, std::make_unique<K>(n), std::make_unique<K>(1)); }
}
int main() { return RunDriver({{"notes", Notes}, {"stacks", Stacks}}); }

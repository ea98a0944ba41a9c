// Driver for the concurrent queue and the thread pool: explores the schedules of small client programs
// (sched.hpp) and reports the distinct histories of calls and returns.
#include "sched.hpp"
#include "common.hpp"
#include <dal/concurrency/concurrentqueue.hpp>
#include <dal/concurrency/threadpool.hpp>
#include <memory>
#include <stdexcept>
#include <thread>
using namespace Dal;
using sched::Log;

// items whose moves are scheduling points
struct Item {
    int v = -5;
    Item() = default;
    explicit Item(int x) : v(x) {}
    Item(Item&& o) noexcept { sched::Point(); v = o.v; o.v = -9; }
    Item& operator=(Item&& o) noexcept { sched::Point(); v = o.v; o.v = -9; sched::Point(); return *this; }
    Item(const Item&) = delete;
    Item& operator=(const Item&) = delete;
};

static void RunThreads(std::vector<std::function<void()>> fs) {
    std::vector<std::thread> ts;
    for (auto& f : fs) ts.emplace_back(f);
    for (auto& t : ts) t.join();
}

static void QueueBody(const JV& prog) {
    auto* q = new ConcurrentQueue_<Item>;
    std::vector<std::function<void()>> fs;
    int id = 0;
    for (auto& ops : prog.GetArray()) {
        ++id;
        fs.push_back([q, id, &ops] {
            for (auto& o : ops.GetArray()) {
                const char k = o[0].GetString()[0];
                const int a = o.Size() > 1 ? I(o[1]) : 0;
                Log("c%d%c%d;", id, k, a);
                if (k == 'P') { q->Push(Item(a)); Log("r%d%c%d;", id, k, 0); }
                else if (k == 'T') { Item t; const bool b = q->TryPop(t); Log("r%d%c%d;", id, k, b ? t.v : -1); }
                else if (k == 'O') { Item t; const bool b = q->Pop(t); Log("r%d%c%d;", id, k, b ? t.v : -1); }
                else if (k == 'I') { q->Interrupt(); Log("r%d%c%d;", id, k, 0); }
                else if (k == 'R') { q->ResetInterrupt(); Log("r%d%c%d;", id, k, 0); }
                else if (k == 'C') { q->Clear(); Log("r%d%c%d;", id, k, 0); }
                else if (k == 'E') { const bool b = q->Empty(); Log("r%d%c%d;", id, k, b ? 1 : 0); }
            }
        });
    }
    RunThreads(fs);
    Log("end;");
}

// tasks of a pool program: [[kind, children...]...]; kinds: "v" spawns its children, waits for them and returns its parity, "x" the same but throws, "n" does not wait for them
struct Pool {
    ThreadPool_* p = ThreadPool_::GetInstance();
    const JV* tasks;
    static int T() { return sched::Me()->id; }
    bool Body(int i) {
        const JV& t = (*tasks)[static_cast<rapidjson::SizeType>(i)];
        Log("s%d,%d,%d;", i, T(), static_cast<int>(ThreadPool_::ThreadNum()));
        sched::Point();
        std::vector<TaskHandle_> hs;
        for (rapidjson::SizeType k = 1; k < t.Size(); ++k) hs.push_back(Spawn(I(t[k])));
        if (S(t[0]) != "n")
            for (rapidjson::SizeType k = 1; k < t.Size(); ++k) Wait(I(t[k]), hs[k - 1]);
        Log("f%d,%d,%d;", i, T(), 0);
        if (S(t[0]) == "x") throw std::runtime_error("task " + std::to_string(i));
        return i % 2 == 1;
    }
    TaskHandle_ Spawn(int i) {
        Log("p%d,%d,%d;", i, T(), static_cast<int>(ThreadPool_::ThreadNum()));
        TaskHandle_ h = p->SpawnTask([this, i] { return Body(i); });
        Log("q%d,%d,%d;", i, T(), 0);
        return h;
    }
    void Wait(int i, TaskHandle_& h, bool passive = false) {
        Log("%c%d,%d,%d;", passive ? 'v' : 'w', i, T(), 0);
        bool ran = false;
        if (passive) h.wait();
        else ran = p->ActiveWait(h);
        int r = 9;
        if (h.wait_for(std::chrono::seconds(0)) == std::future_status::ready) {
            try { r = h.get() ? 1 : 0; }
            catch (const std::future_error&) { r = 3; }
            catch (const std::exception& e) { r = e.what() == "task " + std::to_string(i) ? 2 : 8; }
        }
        Log("%c%d,%d,%d;", passive ? 'u' : 'd', i, T(), r + (ran ? 10 : 0));
    }
};
// clients: main first; ops ["S", i] spawn, ["W", i] wait, ["F", i] wait passively, ["G", n] start with n threads (restart), ["H", n] without restart, ["X"] stop
static void PoolBody(const JV& c) {
    auto pool = std::make_shared<Pool>();
    pool->tasks = &c["tasks"];
    sched::G().nprocs = 6;
    auto hs = std::make_shared<std::map<int, TaskHandle_>>();
    auto run = [pool, hs](const JV& ops) {
        for (auto& o : ops.GetArray()) {
            const std::string k = S(o[0]);
            if (k == "S") { TaskHandle_ h = pool->Spawn(I(o[1])); (*hs)[I(o[1])] = std::move(h); }
            else if (k == "W") pool->Wait(I(o[1]), (*hs)[I(o[1])]);
            else if (k == "F") pool->Wait(I(o[1]), (*hs)[I(o[1])], true);
            else if (k == "G" || k == "H") { Log("g%d,%d,%d;", I(o[1]), Pool::T(), k == "G" ? 1 : 0); pool->p->Start(static_cast<size_t>(I(o[1])), k == "G"); Log("h%d,%d,%d;", I(o[1]), Pool::T(), static_cast<int>(pool->p->NumThreads())); }
            else if (k == "X") { Log("x0,%d,0;", Pool::T()); pool->p->Stop(); Log("y0,%d,%d;", Pool::T(), static_cast<int>(pool->p->NumThreads())); }
        }
    };
    auto& cl = c["clients"];
    run(c["setup"]);
    std::vector<std::function<void()>> fs;
    for (rapidjson::SizeType i = 1; i < cl.Size(); ++i) fs.push_back([run, &cl, i] { run(cl[i]); });
    std::vector<std::thread> ts;
    for (auto& f : fs) ts.emplace_back(f);
    run(cl[0]);
    for (auto& t : ts) t.join();
    run(c["teardown"]);
    Log("end;");
}

static void Explore(const JV& c, Out& out, const std::function<void()>& body) {
    sched::Search s;
    std::map<std::string, uint64_t> seen;
    auto see = [&](const std::string& how) {
        std::string h(s.shm->out, s.shm->len);
        if (!how.empty()) h += "!" + how;
        else if (s.shm->status == 2) h += "stuck;";
        else if (s.shm->status != 1) h += "!status " + std::to_string(s.shm->status);
        ++seen[h];
    };
    const int bound = I(c["bound"]), spur = I(c["spurious"]);
    const bool all = s.Explore(body, bound, spur, static_cast<uint64_t>(I(c["limit"])), see);
    for (int k = 0; k < I(c["random"]); ++k)
        see(s.Run(body, {}, true, static_cast<uint64_t>(I(c["seed"]) * 100003 + k + 1), 50 + 150 * (k % 5), spur));
    out.kv("runs", static_cast<long long>(s.runs));
    out.kv("all", all);
    out.arr("hist");
    for (auto& h : seen) out.w.String(h.first.c_str());
    out.end();
}

int main() {
    sched::G().nprocs = 1;
    return RunDriver({{"queue", [](const JV& c, Out& o) { Explore(c, o, [&c] { QueueBody(c["prog"]); }); }},
                      {"pool", [](const JV& c, Out& o) { Explore(c, o, [&c] { PoolBody(c); }); }}});
}

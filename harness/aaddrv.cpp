// Driver for automatic differentiation: block storage, recorded programs.
#include "common.hpp"
#include "sobolstub.hpp"
#include <dal/math/aad/aad.hpp>
#include <dal/math/specialfunctions.hpp>
using namespace Dal;

// one history of operations on block storage; after each the whole observable state is reported
template <size_t N_> static void Blocks(const JV& c, Out& out) {
    using list_t = AAD::BlockList_<double, N_>;
    list_t b;
    std::vector<std::pair<double*, double>> dummy;
    typename list_t::Iterator_ saved = b.Begin();
    std::map<int, double*> at;   // slot -> address
    const double* base = nullptr;
    out.arr("s");
    for (auto& h : c["h"].GetArray()) {
        const std::string op = S(h["op"]);
        const int n = I(h["n"]), slot = I(h["slot"]);
        double* p = nullptr;
        if (op == "E" || op == "P" || op == "M") {
            // the values the model gives to the new entries
            std::vector<double> w;
            for (auto& l : h["live"].GetArray()) if (I(l[0]) >= slot) w.push_back(D(l[1]));
            if (op == "E") p = b.EmplaceBack(w[0]);
            else if (op == "P") { p = b.EmplaceBack(); *p = w[0]; }
            else {
                const bool tmpl = (slot + n) % 2 == 0;
                if (n == 1) p = tmpl ? b.template EmplaceBackMulti<1>() : b.EmplaceBackMulti(1);
                else if (n == 2) p = tmpl ? b.template EmplaceBackMulti<2>() : b.EmplaceBackMulti(2);
                else if (n == 3) p = tmpl ? b.template EmplaceBackMulti<3>() : b.EmplaceBackMulti(3);
                else p = b.EmplaceBackMulti(static_cast<size_t>(n));
                for (int i = 0; i < n; ++i) p[i] = w[static_cast<size_t>(i)];
            }
            for (int i = 0; i < n; ++i) at[slot + i] = p + i;
            if (!base) base = p;
        }
        else if (op == "K") b.SetMark();
        else if (op == "G") saved = b.GetPosition();
        else if (op == "R") b.RewindToMark();
        else if (op == "T") b.RewindTo(saved);
        else if (op == "W") b.Rewind();
        else if (op == "Z") b.Memset(0);
        else { b.Clear(); at.clear(); }
        out.w.StartObject();
        if (p) out.kv("p", static_cast<long long>(p - base));
        out.arr("at");   // what the live entries hold at their addresses
        for (auto& l : h["live"].GetArray()) out.num(*at[I(l[0])]);
        out.end();
        const long lim = I(h["end"]) + 3L * static_cast<long>(N_) + 3;
        if (B(h["nogap"])) {
            out.kv("size", b.Size());
            out.arr("fw");
            long k = 0;
            for (auto it = b.Begin(); it != b.End() && k < lim; ++it, ++k) out.num(*it);
            out.end();
            out.arr("cfw");
            const list_t& cb = b;
            k = 0;
            for (auto it = cb.begin(); it != cb.end() && k < lim; ++it, ++k) out.num(*it);
            out.end();
            out.arr("bw");
            k = 0;
            for (auto it = b.End(); it != b.Begin() && k < lim; ++k) { --it; out.num(*it); }
            out.end();
            k = 0;   // entries before the mark
            if (I(h["mark"]) <= I(h["end"])) {
                for (auto it = b.Begin(); it != b.Mark() && k < lim; ++it) ++k;
                out.kv("mark", static_cast<long long>(k));
            }
        }
        out.arr("find");
        for (auto& a : at) {
            auto it = b.Find(a.second);
            out.w.Int(it == b.End() ? -1 : (&*it == a.second ? 1 : 0));
        }
        out.end();
        out.arr("slots");
        for (auto& a : at) out.w.Int(a.first);
        out.end();
        out.w.EndObject();
    }
    out.end();
}

static void BlocksOp(const JV& c, Out& out) {
    switch (I(c["b"])) {
    case 1: return Blocks<1>(c, out);
    case 2: return Blocks<2>(c, out);
    case 3: return Blocks<3>(c, out);
    case 4: return Blocks<4>(c, out);
    default: return Blocks<5>(c, out);
    }
}

using AAD::Number_;
using AAD::TapNode_;

// recorded programs: the nodes they record, in the model's numbering
struct Rec_ {
    AAD::Tape_& tape;
    std::vector<Number_> v;
    std::vector<TapNode_*> nodes;
    std::vector<int> env;
    std::vector<double> vals;
    explicit Rec_(AAD::Tape_& t) : tape(t) {}
    TapNode_* Last() { auto it = tape.End(); --it; return &*it; }
    void Inputs(const JV& x, int nv) {
        for (auto& a : x.GetArray()) { v.push_back(Number_(D(a))); nodes.push_back(Last()); env.push_back(static_cast<int>(nodes.size()) - 1); }
        while (static_cast<int>(v.size()) < nv) { v.push_back(v[0]); env.push_back(0); }
    }
    void Run(const JV& stms) {
        for (auto& s : stms.GetArray()) {
            const size_t ti = static_cast<size_t>(I(s[1]) - 1);
            Number_ &t = v[ti], &a = v[static_cast<size_t>(I(s[2]) - 1)], &b = v[static_cast<size_t>(I(s[3]) - 1)], &c = v[static_cast<size_t>(I(s[4]) - 1)];
            const double k = D(s[5]);
            const std::string f = S(s[0]);
            if (f == "copy") { env[ti] = env[static_cast<size_t>(I(s[2]) - 1)]; t = a; vals.push_back(t.value()); continue; }
            if (f == "add") t = a + b;
            else if (f == "sub") t = a - b;
            else if (f == "mul") t = a * b;
            else if (f == "div") t = a / b;
            else if (f == "max") t = max(a, b);
            else if (f == "min") t = min(a, b);
            else if (f == "neg") t = -a;
            else if (f == "pos") t = +a;
            else if (f == "abs") t = fabs(a);
            else if (f == "addk") t = a + k;
            else if (f == "kadd") t = k + a;
            else if (f == "subk") t = a - k;
            else if (f == "ksub") t = k - a;
            else if (f == "mulk") t = a * k;
            else if (f == "kmul") t = k * a;
            else if (f == "divk") t = a / k;
            else if (f == "kdiv") t = k / a;
            else if (f == "maxk") t = max(a, k);
            else if (f == "kmax") t = max(k, a);
            else if (f == "mink") t = min(a, k);
            else if (f == "kmin") t = min(k, a);
            else if (f == "sq") t = a * a;
            else if (f == "pow2") t = pow(a, 2.0);
            else if (f == "pow3") t = pow(a, 3.0);
            else if (f == "exp") t = exp(a);
            else if (f == "log") t = log(a);
            else if (f == "sqrt") t = sqrt(a);
            else if (f == "npdf") t = NPDF(a);
            else if (f == "ncdf") t = NCDF(a);
            else if (f == "erfc") t = erfc(a);
            else if (f == "pow") t = pow(a, b);
            else if (f == "powk") t = pow(a, k);
            else if (f == "kpow") t = pow(k, a);
            else if (f == "fma") t = a * b + c;
            else if (f == "dist") t = (a + b) * (a - c);
            else if (f == "tree") t = max(a * b, c) - 3.0 * (a - k);
            else if (f == "mix1") t = exp(-a * b) * NCDF(c) + a / (1.0 + b * b);
            else if (f == "mix2") t = sqrt(1.0 + a * a) - log(2.0 + b * b) * c / k;
            else if (f == "mix3") t = fabs(a - k) + max(b, c * 0.5) * min(a, c) - pow(1.5 + a * a, 0.3);
            else if (f == "ladd") t += a * b;
            else if (f == "lsub") t -= a;
            else if (f == "lmul") t *= a;
            else if (f == "ldiv") t /= a;
            else if (f == "ladk") t += k;
            else if (f == "lsbk") t -= k;
            else if (f == "lmlk") t *= k;
            else if (f == "ldvk") t /= k;
            else if (f == "self") t = t * t - a;
            else if (f == "set") t = k;
            else throw std::runtime_error("unknown form " + f);
            nodes.push_back(Last());
            env[ti] = static_cast<int>(nodes.size()) - 1;
            vals.push_back(t.value());
        }
    }
};

static AAD::Tape_& Fresh(const JV& c) {
    static AAD::Tape_ tape;
    Number_::SetTape(tape);
    if (B(c["clear"])) tape.Clear(); else tape.Rewind();
    return tape;
}

// entries before the program, so that it meets the ends of the storage's blocks
static void Pad(int n) {
    if (n <= 0) return;
    Number_ a(1.0);
    for (int i = 1; i < n; ++i) { Number_ b = (i % 3) ? Number_(a + a) : Number_(2.0); (void) b; }
}

static void Prog(const JV& c, Out& out) {
    const bool multi = B(c["multi"]);
    const int nv = I(c["nv"]);
    auto guard = AAD::SetNumResultsForAAD(multi, multi ? static_cast<size_t>(nv) : 1);
    AAD::Tape_& tape = Fresh(c);
    Pad(I(c["pad"]));
    Rec_ r(tape);
    r.Inputs(c["x"], nv);
    if (c.HasMember("remark") && B(c["remark"])) { tape.Mark(); Number_ junk = r.v[0] * 3.0; (void) junk; tape.RewindToMark(); }
    r.Run(c["stms"]);
    out.kvs("vals", r.vals);
    out.arr("adj");
    if (multi) {
        for (int j = 0; j < nv; ++j) r.nodes[static_cast<size_t>(r.env[static_cast<size_t>(j)])]->Adjoint(static_cast<size_t>(j)) += 1.0;
        Number_::PropagateAdjointsMulti(std::prev(tape.End()), tape.Begin());
    }
    for (int j = 0; j < nv; ++j) {
        if (!multi) {
            tape.ResetAdjoints();
            if (j % 2) { r.v[static_cast<size_t>(j)].Adjoint() = 1.0; Number_::PropagateAdjoints(std::prev(tape.End()), tape.Begin()); }
            else r.v[static_cast<size_t>(j)].PropagateToStart();
        }
        out.w.StartArray();
        for (auto* n : r.nodes) out.num(multi ? n->Adjoint(static_cast<size_t>(j)) : n->Adjoint());
        out.w.EndArray();
    }
    out.end();
}

static void Marked(const JV& c, Out& out) {
    const bool multi = B(c["multi"]);
    auto guard = AAD::SetNumResultsForAAD(multi, multi ? 2 : 1);
    AAD::Tape_& tape = Fresh(c);
    Pad(I(c["pad"]));
    Rec_ r(tape);
    r.Inputs(c["x"], I(c["nv"]));
    const auto& rounds = c["rounds"];
    r.Run(rounds[0]["stms"]);
    tape.Mark();
    Pad(I(c["pad2"]));
    const auto nodes = r.nodes;
    const auto v = r.v;
    const auto env = r.env;
    for (rapidjson::SizeType i = 1; i < rounds.Size(); ++i) {
        tape.RewindToMark();
        r.nodes = nodes; r.v = v; r.env = env;
        r.Run(rounds[i]["stms"]);
        const size_t res = static_cast<size_t>(I(rounds[i]["res"]) - 1);
        if (!multi) { r.v[res].PropagateToMark(); continue; }
        // round i is a value of result i % 2
        r.nodes[static_cast<size_t>(r.env[res])]->Adjoint(i % 2) += 1.0;
        if (tape.End() != tape.MarkIt()) Number_::PropagateAdjointsMulti(std::prev(tape.End()), tape.MarkIt());
    }
    if (!multi) Number_::PropagateMarkToStart();
    else Number_::PropagateAdjointsMulti(std::prev(tape.MarkIt()), tape.Begin());
    out.kvs("vals", r.vals);
    out.arr("adj");
    for (auto* n : nodes) out.num(multi ? n->Adjoint(0) + n->Adjoint(1) : n->Adjoint());
    out.end();
    if (multi) {
        out.arr("odd");
        for (auto* n : nodes) out.num(n->Adjoint(1));
        out.end();
    }
}

int main() {
    return RunDriver({{"blocks", BlocksOp}, {"prog", Prog}, {"marked", Marked}});
}

// The command queue of the serial scheduler: which command it hands out, and when
#include "sx.h"
#include <atomic>
#include <condition_variable>
#include <future>
#include <list>
#include <mutex>
#include <optional>
#include <sstream>
#include <thread>
#include <tuple>
#include <vector>
#include <mutable/parse/AST.hpp>
#include <mutable/util/Diagnostic.hpp>
#define private public
#define protected public
#include <mutable/catalog/Scheduler.hpp>
#include "catalog/SerialScheduler.hpp"
#undef private
#undef protected
using namespace m;
using Q = SerialScheduler::CommandQueue; using T = Scheduler::Transaction;
static Q &queue() { return SerialScheduler::query_queue_; }

struct Sub { unsigned t; ast::Command *c; std::future<bool> f; bool out = false, refused = false; };
struct Log {
    std::ostringstream o, e; Diagnostic diag{ false, o, e }; std::vector<std::unique_ptr<T>> t; std::vector<Sub> subs;
    Log(unsigned n) { for (unsigned i = 0; i != n; ++i) t.push_back(std::make_unique<T>()); }
    void push(unsigned i) {
        auto c = std::make_unique<ast::EmptyStmt>(ast::Token::CreateArtificial()); std::promise<bool> p; subs.push_back({ i, c.get(), p.get_future() });
        queue().push(*t[i], std::move(c), diag, std::move(p));
    }
    int which(Scheduler::queued_command &q) { for (unsigned i = 0; i != subs.size(); ++i) if (not subs[i].out and subs[i].c == std::get<1>(q).get()) return int(i); return -1; }
};
static bool ready(std::future<bool> &f) { return f.wait_for(std::chrono::seconds(0)) == std::future_status::ready; }

// all histories of one thread; the queue is asked only when it has something to hand out
SX_MAIN(history)
{
    constexpr unsigned NT = 3; Log L(NT); int running = -1; bool closed = false; std::vector<unsigned> order;   // pending transactions by arrival
    auto pending = [&](unsigned t) { unsigned n = 0; for (auto &s : L.subs) n += s.t == t and not s.out and not s.refused; return n; };
    unsigned n = 6 + SX_THOROUGH;
    for (unsigned i = 0; i != n; ++i) switch (sx_choose(4, "operation")) {
        case 0: {
            unsigned t = sx_choose(NT, "transaction"); if (not pending(t)) order.push_back(t);
            L.push(t);
            if (closed) { sx_check(ready(L.subs.back().f) and not L.subs.back().f.get(), "commands are refused after closing"); L.subs.back().refused = true; order.clear(); }
            break;
        }
        case 1: {
            int t = running; if (t < 0 and not order.empty()) t = order.front();
            if (not closed and (t < 0 or not pending(t))) return;   // would wait
            auto q = queue().pop();
            if (closed) { sx_check(not q.has_value(), "a closed queue hands out nothing"); sx_cover("nothing"); break; }
            sx_check(q.has_value(), "a command is handed out"); if (not q) return;
            int k = L.which(*q); sx_check(k >= 0, "the command was submitted"); if (k < 0) return;
            unsigned first = 0; while (L.subs[first].t != unsigned(t) or L.subs[first].out) ++first;
            sx_check(unsigned(k) == first, running >= 0 ? "the running transaction's commands are handed out in order of submission" : "the transaction that waits longest starts with its first command");
            sx_check(&std::get<0>(*q) == L.t[t].get() and &std::get<2>(*q) == &L.diag, "a command comes with its transaction");
            L.subs[k].out = true; std::get<3>(*q).set_value(true); sx_check(ready(L.subs[k].f) and L.subs[k].f.get(), "a command comes with its promise");
            running = t; if (not pending(t)) for (unsigned j = 0; j != order.size(); ++j) if (order[j] == unsigned(t)) order.erase(order.begin() + j--);
            sx_cover("handed out"); break;
        }
        case 2: if (running < 0 or pending(running)) return; queue().stop_transaction(*L.t[running]); running = -1; break;
        default: if (closed) return; queue().close(); closed = true; order.clear(); sx_check(queue().is_closed(), "closed");
            for (auto &s : L.subs) if (not s.out) { sx_check(ready(s.f) and not s.f.get(), "closing refuses what is pending"); s.refused = true; sx_cover("dropped"); }
    }
    sx_check(queue().is_closed() == closed, "closed");
    if (not closed) { queue().close(); for (auto &s : L.subs) if (not s.out) sx_check(ready(s.f) and not s.f.get(), "closing refuses what is pending"); }
}

// submitters and the worker, under every schedule
static Log *LG; static std::vector<int> *got; static unsigned done_t[4], each;
static void worker(void *expect) {
    unsigned n = (unsigned)(uintptr_t)expect; int running = -1;
    for (unsigned i = 0; i != n; ++i) {
        auto q = queue().pop();
        if (not q) { sx_check(queue().is_closed(), "only a closed queue hands out nothing"); return; }
        int t = -1; for (unsigned j = 0; j != LG->t.size(); ++j) if (LG->t[j].get() == &std::get<0>(*q)) t = int(j);
        sx_check(t >= 0, "known transaction"); if (t < 0) return;
        sx_check(running < 0 or running == t, "no other transaction comes in between"); running = t;
        int k = -1; for (unsigned j = 0; j != LG->subs.size(); ++j) if (LG->subs[j].c == std::get<1>(*q).get()) k = int(j);
        sx_check(k >= 0 and LG->subs[k].t == unsigned(t) and not LG->subs[k].out, "each command is handed out once"); if (k < 0) return;
        for (int j = 0; j != k; ++j) sx_check(LG->subs[j].t != unsigned(t) or LG->subs[j].out, "commands of a transaction keep their order");
        LG->subs[k].out = true; std::get<3>(*q).set_value(true);
        if (++done_t[t] == each) { queue().stop_transaction(*LG->t[t]); running = -1; }
    }
    sx_cover("all handed out");
}
static void submit(void *p) {
    unsigned t = (unsigned)(uintptr_t)p;
    for (unsigned k = 0; k != each; ++k) {
        auto &s = LG->subs[t * each + k]; std::promise<bool> pr; s.f = pr.get_future();
        std::unique_ptr<ast::Command> c(s.c); queue().push(*LG->t[t], std::move(c), LG->diag, std::move(pr));
    }
}
static void prepare(Log &L, unsigned nt, unsigned n) {
    LG = &L; each = n; for (unsigned t = 0; t != nt; ++t) { done_t[t] = 0; for (unsigned k = 0; k != n; ++k) { L.subs.emplace_back(); L.subs.back().t = t; L.subs.back().c = new ast::EmptyStmt(ast::Token::CreateArtificial()); } }
}
static void threads(unsigned nt, unsigned n, bool close) {
    Log L(nt); prepare(L, nt, n);
    sx_spawn(worker, (void*)(uintptr_t)(nt * n + close));
    for (unsigned t = 0; t != nt; ++t) sx_spawn(submit, (void*)(uintptr_t)t);
    if (close) queue().close();
    sx_join_all();
    for (auto &s : L.subs) { sx_check(close or s.out, "every command is handed out"); sx_check(ready(s.f), "every promise is kept"); if (ready(s.f)) sx_check(s.f.get() == s.out, "a promise tells whether the command was handed out"); }
    if (not close) queue().close();
    sx_cover("finished");
}
SX_MAIN(threads1x2) { threads(1, 2, false); }
SX_MAIN(threads2x1) { threads(2, 1, false); }
SX_MAIN(threads2x2) { threads(2, 2, false); }
SX_MAIN(closing1x2) { threads(1, 2, true); }
SX_MAIN(closing2x1) { threads(2, 1, true); }

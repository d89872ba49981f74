/*
 * Sessions: several streams and batch calls interleaved, one after another or in parallel threads, optionally with
 * failing allocations.  Every call is recorded together with what the same calls give when the stream is alone.
 *
 *   R <indicator>            starts a role: its own O, S and V lines follow
 *   E threads                the slots' operations run in parallel threads
 *   E new s r | run s n | grun s n | info s | free s | gfree s | batch r n | ref r n
 *   E fail k                 the k-th allocation of the next call fails
 */
#pragma once
#include <atomic>
#include <chrono>

struct Ev { string op; int a = 0, b = 0; long fail = -1; int inst = -1; };
struct Got {
    int ret = -9, prog = 0, exc = 0, nout = 0; bool info = true, hole = false, touch = false, failed = false, ghost = false; long net = 0;
    vector<int> cnt; vector<vector<double>> out;
};
struct Slot { ti_stream *st = nullptr; int role = -1, fed = 0; };

static Got exec_one(const vector<Block> &roles, Slot &s, Ev &e) {
    Got g;
    if (e.op == "new" && s.st) {
        g.ret = -8;   /* occupied */
    } else if (e.op == "new") {
        const Block &r = roles[e.b];
        const ti_indicator_info *info = ti_find_indicator(r.ind.c_str());
        Options opt(r.o);
        ti_stream *st = (ti_stream *)0x10;
        Call c;
        g.ret = c.call([&] { return info->stream_new(opt.a.p(), &st); }, e.fail);
        g.net = c.net; g.exc = c.exc; g.failed = c.failed; g.touch = opt.touched();
        g.ghost = g.ret != TI_OKAY && st != (ti_stream *)0x10 && st != nullptr;
        if (g.ret == TI_OKAY) {
            s.st = st; s.role = e.b; s.fed = 0;
            g.prog = ti_stream_get_progress(st);
            g.info = ti_stream_get_info(st) == info;
        }
        for (size_t q = 0; q < r.o.size(); ++q) opt.a.p()[q] = -12345.5;
    } else if (e.op == "batch" || e.op == "ref") {
        const Block &r = roles[e.a];
        const ti_indicator_info *info = ti_find_indicator(r.ind.c_str());
        auto f = e.op == "ref" ? info->indicator_ref : info->indicator;
        Options opt(r.o);
        Inputs in(r.d, 0, e.b);
        Outputs y(info->outputs, room(info, r.o, e.b));
        Call c;
        g.ret = c.call([&] { return f(e.b, in.ptr.data(), opt.a.p(), y.ptr.data()); }, e.fail);
        y.settle(g.ret == TI_OKAY);
        g.net = c.net; g.exc = c.exc; g.failed = c.failed; g.touch = opt.touched() || in.touched(r.d, 0, e.b);
        g.nout = info->outputs;
        for (int j = 0; j < info->outputs; ++j) {
            size_t n = y.a[j]->count();
            g.cnt.push_back(n); g.hole |= y.a[j]->before() || y.a[j]->hole();
            n = std::min<size_t>(n, y.a[j]->n);
            g.out.emplace_back(y.a[j]->p(), y.a[j]->p() + n);
        }
    } else if (!s.st) {
        g.ret = -8;   /* the stream could not be created: nothing to do */
    } else {
        const Block &r = roles[s.role];
        const ti_indicator_info *info = ti_find_indicator(r.ind.c_str());
        if (e.op == "run" || e.op == "grun") {
            e.b = std::min(e.b, r.d.bars - s.fed);
            Inputs in(r.d, s.fed, e.b);
            Outputs y(info->outputs, room(s.st, e.b));
            Call c;
            auto run = e.op == "run" ? info->stream_run : ti_stream_run;
            g.ret = c.call([&] { return run(s.st, e.b, in.ptr.data(), y.ptr.data()); }, e.fail);
            y.settle(g.ret == TI_OKAY);
            g.net = c.net; g.exc = c.exc; g.failed = c.failed; g.touch = in.touched(r.d, s.fed, e.b);
            g.nout = info->outputs;
            for (int j = 0; j < info->outputs; ++j) {
                size_t n = y.a[j]->count();
                g.cnt.push_back(n); g.hole |= y.a[j]->before() || y.a[j]->hole();
                n = std::min<size_t>(n, y.a[j]->n);
                g.out.emplace_back(y.a[j]->p(), y.a[j]->p() + n);
            }
            g.prog = ti_stream_get_progress(s.st);
            g.info = ti_stream_get_info(s.st) == info;
            if (g.ret == TI_OKAY) s.fed += e.b;
        } else if (e.op == "info") {
            g.ret = 0; g.prog = ti_stream_get_progress(s.st); g.info = ti_stream_get_info(s.st) == info;
        } else if (e.op == "free" || e.op == "gfree") {
            Call c;
            auto fr = e.op == "free" ? info->stream_free : ti_stream_free;
            g.ret = c.call([&] { fr(s.st); return 0; });
            g.net = c.net; g.exc = c.exc;
            s = Slot();
        }
    }
    return g;
}

static void dump(int fd, const void *p, size_t n) { for (size_t o = 0; o < n; ) { ssize_t k = write(fd, (const char *)p + o, n - o); if (k <= 0) _exit(98); o += k; } }
static bool slurp(int fd, void *p, size_t n) { for (size_t o = 0; o < n; ) { ssize_t k = read(fd, (char *)p + o, n - o); if (k <= 0) return false; o += k; } return true; }

/* The outputs of the given events when nothing else happens in the process. */
static vector<vector<vector<double>>> solo(const vector<Block> &roles, const vector<Ev> &ev, const vector<int> &which) {
    int fd[2];
    if (pipe(fd)) _exit(97);
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]);
        Slot s;
        for (int k : which) {
            Ev e = ev[k]; e.fail = -1;
            Got g = exec_one(roles, s, e);
            int n = g.out.size(); dump(fd[1], &n, sizeof n);
            for (auto &v : g.out) { int m = v.size(); dump(fd[1], &m, sizeof m); dump(fd[1], v.data(), m * 8); }
        }
        _exit(0);
    }
    close(fd[1]);
    vector<vector<vector<double>>> res;
    for (size_t k = 0; k < which.size(); ++k) {
        int n = 0;
        res.emplace_back();
        if (!slurp(fd[0], &n, sizeof n)) break;
        for (int j = 0; j < n; ++j) { int m = 0; if (!slurp(fd[0], &m, sizeof m)) break; res.back().emplace_back(m); if (!slurp(fd[0], res.back().back().data(), m * 8)) break; }
    }
    res.resize(which.size());
    close(fd[0]);
    int st; waitpid(p, &st, 0);
    return res;
}

static void put(Out &o, const Ev &e, const Got &g, const vector<vector<double>> &alone) {
    o.raw(",{\"op\":\"" + e.op + "\",\"a\":"); o.num(e.a); o.raw(",\"b\":"); o.num(e.b);
    o.raw(",\"ret\":"); o.num(g.ret); o.raw(",\"prog\":"); o.num(g.prog); o.raw(",\"exc\":"); o.num(g.exc);
    o.raw(",\"net\":"); o.num(g.net);
    auto flag = [&](const char *n, bool v) { o.raw(string(",\"") + n + "\":" + (v ? "true" : "false")); };
    flag("info", g.info); flag("hole", g.hole); flag("touch", g.touch); flag("failed", g.failed); flag("ghost", g.ghost);
    o.raw(",\"cnt\":["); for (size_t j = 0; j < g.cnt.size(); ++j) { if (j) o.raw(","); o.num(g.cnt[j]); }
    o.raw("],\"out\":["); for (size_t j = 0; j < g.out.size(); ++j) { if (j) o.raw(","); o.reals(g.out[j].data(), g.out[j].size()); }
    o.raw("],\"solo\":["); for (size_t j = 0; j < alone.size(); ++j) { if (j) o.raw(","); o.reals(alone[j].data(), alone[j].size()); }
    o.raw("]}");
}

static void run_session(const Block &b) {
    vector<Ev> ev;
    bool threads = false; long fail = -1, span = 0;
    int slots = 0;
    for (auto &w : b.ev) {
        if (w[0] == "threads") { threads = true; if (w.size() > 1) span = std::stol(w[1]); continue; }
        if (w[0] == "fail") { fail = std::stol(w[1]); continue; }
        Ev e; e.op = w[0]; e.a = std::stoi(w[1]); if (w.size() > 2) e.b = std::stoi(w[2]);
        e.fail = fail; fail = -1;
        bool batch = e.op == "batch" || e.op == "ref";
        if (!batch) slots = std::max(slots, e.a + 1);
        ev.push_back(e);
    }
    /* instances: a stream from its creation on; a batch is one of its own */
    vector<vector<int>> inst; std::map<int, int> cur;
    for (size_t k = 0; k < ev.size(); ++k) {
        Ev &e = ev[k];
        if (e.op == "batch" || e.op == "ref") { e.inst = inst.size(); inst.push_back({(int)k}); }
        else if (e.op == "new" && e.fail < 0) { cur[e.a] = e.inst = inst.size(); inst.push_back({(int)k}); }
        else if (e.op == "new") { e.inst = inst.size(); inst.push_back({(int)k}); cur[e.a] = -1; }
        else if (cur.count(e.a) && cur[e.a] >= 0) { e.inst = cur[e.a]; inst[e.inst].push_back(k); }
    }
    vector<vector<vector<double>>> alone(ev.size());
    for (auto &w : inst) {
        auto r = solo(b.roles, ev, w);
        for (size_t i = 0; i < w.size(); ++i) alone[w[i]] = r[i];
    }
    vector<Got> got(ev.size());
    if (!threads) {
        vector<Slot> s(slots + 1);
        for (size_t k = 0; k < ev.size(); ++k) {
            bool batch = ev[k].op == "batch" || ev[k].op == "ref";
            Out o;
            got[k] = exec_one(b.roles, s[batch ? slots : ev[k].a], ev[k]);
            put(o, ev[k], got[k], alone[k]);
            o.flush();
        }
    } else {
        /* Calls on different slots commute, so the order of the plan is as good as any to report them in. */
        /* The batches of a role have a thread of their own. */
        vector<vector<int>> per(slots + b.roles.size());
        for (size_t k = 0; k < ev.size(); ++k) per[ev[k].op == "batch" || ev[k].op == "ref" ? slots + ev[k].a : ev[k].a].push_back(k);
        std::atomic<int> ready{0};
        int want = 0; for (auto &w : per) want += !w.empty();
        vector<std::thread> th;
        auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(span);
        for (auto &w : per) if (!w.empty()) th.emplace_back([&, w] {
            ++ready; while (ready < want) {}
            for (int round = 0; round < 12 || std::chrono::steady_clock::now() < end; ++round) {
                Slot s;
                for (int k : w) {
                    Got g = exec_one(b.roles, s, ev[k]);
                    bool same = g.out.size() == alone[k].size();
                    for (size_t j = 0; same && j < g.out.size(); ++j)
                        same = g.out[j].size() == alone[k][j].size() && (g.out[j].empty() || !memcmp(g.out[j].data(), alone[k][j].data(), g.out[j].size() * 8));
                    bool clean = g.ret == got[k].ret && g.prog == got[k].prog;
                    if (round == 0 || !same || !clean) got[k] = g;
                    if (round && (!same || !clean)) return;
                }
                if (s.st) ti_stream_free(s.st);
            }
        });
        for (auto &t : th) t.join();
        for (size_t k = 0; k < ev.size(); ++k) { Out o; put(o, ev[k], got[k], alone[k]); o.flush(); }
    }
}

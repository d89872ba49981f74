/*
 * Executes plans of calls against the library and records what it did.
 *
 *   driver < plan > trace
 *
 * One block of the plan is executed in one child process, so that a crash or a hang costs one block (and is recorded
 * as an event).  The trace has one JSON line per block; reals are given by their bits (#hhhhhhhhhhhhhhhh).
 */
#include "indicators.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <signal.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include "alloc.h"

using std::string; using std::vector;
/* What no call may leave in the outputs it owes, and what surrounds (and must not leak from) what the caller passes. */
static const uint64_t SENTINEL = 0x7ff4dead0000beefull, SURROUND = 0x7ff4feed0000cafeull;
/* With a memory checker arrays have exactly the size the caller owes; otherwise they have room around them. */
#if defined(VARIANT_ASAN) || defined(VARIANT_VG)
#define EXACT 1
static const int GUARD = 0;
#else
#define EXACT 0
static const int GUARD = 64;
#endif
#if defined(VARIANT_VG)
#include <valgrind/memcheck.h>
#else
#define VALGRIND_MAKE_MEM_UNDEFINED(p, n) ((void)0)
#define VALGRIND_MAKE_MEM_DEFINED(p, n) ((void)0)
#define VALGRIND_CHECK_MEM_IS_DEFINED(p, n) ((void)0)
#endif

static double of_bits(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static uint64_t bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }

struct Out {
    string s;
    void raw(const char *t) { s += t; }
    void raw(const string &t) { s += t; }
    void num(long v) { s += std::to_string(v); }
    void real(double d) { char b[24]; snprintf(b, sizeof b, "#%016llx", (unsigned long long)bits(d)); s += b; }
    void reals(const double *p, size_t n) { s += '['; for (size_t i = 0; i < n; ++i) { if (i) s += ','; real(p[i]); } s += ']'; }
    void flush() {
        for (size_t o = 0; o < s.size(); ) {
            ssize_t k = write(1, s.data() + o, s.size() - o);
            if (k <= 0) _exit(99);
            o += k;
        }
        s.clear();
    }
};

/* Aligned private copy of caller's data with guards on both sides. */
struct Area {
    double *base; size_t n, cap; uint64_t mark;
    explicit Area(size_t n_, uint64_t mark_ = SENTINEL) : n(n_), cap(n_ + 2 * GUARD), mark(mark_) {
        base = (double *)raw_alloc(cap * 8);
        fill();
    }
    ~Area() { raw_free(base); }
    Area(const Area &) = delete;
    void fill() { for (size_t i = 0; i < cap; ++i) memcpy(base + i, &mark, 8); }
    double *p() { return base + GUARD; }
    bool changed(size_t i) const { uint64_t b; memcpy(&b, base + i, 8); return b != mark; }
    bool before() const { for (int i = 0; i < GUARD; ++i) if (changed(i)) return true; return false; }
    size_t count() const { size_t i = cap; while (i > (size_t)GUARD && !changed(i - 1)) --i; return i - GUARD; }
    bool hole() const { size_t c = count(); for (size_t i = 0; i < c; ++i) if (!changed(GUARD + i)) return true; return false; }
};

struct Series { int inputs = 0, bars = 0; vector<vector<double>> v; };

struct Block {
    string id, ind;
    vector<double> o;
    Series d;
    vector<vector<string>> ev;
    vector<Block> roles;     /* of a session */
};

/* Read-only copy of the inputs: exactly n bars of each series, surrounded by sentinels. */
struct Inputs {
    vector<std::unique_ptr<Area>> a;
    vector<const double *> ptr;
    Inputs(const Series &s, int from, int n) {
        for (int j = 0; j < s.inputs; ++j) {
            a.emplace_back(new Area(n, SURROUND));
            if (n) memcpy(a[j]->p(), s.v[j].data() + from, n * 8);
            ptr.push_back(a[j]->p());
        }
        for (int j = s.inputs; j < TI_MAXINDPARAMS; ++j) ptr.push_back(nullptr);
    }
    bool touched(const Series &s, int from, int n) {
        for (int j = 0; j < s.inputs; ++j) {
            if (n && memcmp(a[j]->p(), s.v[j].data() + from, n * 8)) return true;
            for (size_t i = 0; i < a[j]->cap; ++i)
                if ((i < (size_t)GUARD || i >= (size_t)GUARD + n) && a[j]->changed(i)) return true;
        }
        return false;
    }
};
struct Options {
    Area a; vector<double> v;
    explicit Options(const vector<double> &o) : a(o.size(), SURROUND), v(o) { if (!o.empty()) memcpy(a.p(), o.data(), o.size() * 8); }
    bool touched() {
        for (size_t i = 0; i < a.cap; ++i) {
            if (i >= (size_t)GUARD && i < GUARD + v.size()) { if (bits(a.base[i]) != bits(v[i - GUARD])) return true; }
            else if (a.changed(i)) return true;
        }
        return false;
    }
};
struct Outputs {
    vector<std::unique_ptr<Area>> a;
    vector<double *> ptr;
    int n;
    Outputs(int n_, int cap) : n(n_) {
        for (int j = 0; j < n; ++j) { a.emplace_back(new Area(cap)); ptr.push_back(a[j]->p()); }
        for (int j = n; j < TI_MAXINDPARAMS; ++j) ptr.push_back(nullptr);
        for (auto &x : a) VALGRIND_MAKE_MEM_UNDEFINED(x->base, x->cap * 8);
    }
    /* After the call: all that is owed must have been computed from initialised memory. */
    void settle(bool ok) {
        for (auto &x : a) {
            if (ok) VALGRIND_CHECK_MEM_IS_DEFINED(x->base, x->cap * 8);
            VALGRIND_MAKE_MEM_DEFINED(x->base, x->cap * 8);
        }
    }
};
/* Room for the outputs of a batch, and of a run. */
static int room(const ti_indicator_info *info, const vector<double> &o, int n) {
    return EXACT ? std::min(n, std::max(0, n - info->start(o.data()))) : n + 8;
}
static int room(ti_stream *s, int n) {
    int p = ti_stream_get_progress(s);
    return EXACT ? std::max(0, p + n) - std::max(0, p) : n + 8;
}

static void common(Out &o, Outputs &y, bool touched, long net, int exc) {
    o.raw(",\"cnt\":[");
    bool bad = false;
    for (int j = 0; j < y.n; ++j) { if (j) o.raw(","); o.num(y.a[j]->count()); bad |= y.a[j]->before() || y.a[j]->hole(); }
    o.raw("],\"hole\":"); o.raw(bad ? "true" : "false");
    o.raw(",\"touch\":"); o.raw(touched ? "true" : "false");
    o.raw(",\"net\":"); o.num(net);
    o.raw(",\"exc\":"); o.num(exc);
    o.raw(",\"out\":[");
    for (int j = 0; j < y.n; ++j) { if (j) o.raw(","); o.reals(y.a[j]->p(), std::min<size_t>(y.a[j]->count(), y.a[j]->n)); }
    o.raw("]}");
}

static bool same_out(const vector<vector<double>> &x, const vector<vector<double>> &y) {
    if (x.size() != y.size()) return false;
    for (size_t j = 0; j < x.size(); ++j)
        if (x[j].size() != y[j].size() || (!x[j].empty() && memcmp(x[j].data(), y[j].data(), x[j].size() * 8))) return false;
    return true;
}

#include "session.h"

static void run_block(const Block &b) {
    Out o;
    if (b.ind == "@session") { run_session(b); return; }
    const ti_indicator_info *info = ti_find_indicator(b.ind.c_str());
    if (!info) {   /* the table is checked on its own; go on with a linear search */
        for (const ti_indicator_info *p = ti_indicators; p->name; ++p) if (b.ind == p->name) info = p;
    }
    if (!info) { o.raw(",{\"op\":\"absent\"}"); o.flush(); return; }
    for (auto &e : b.ev) {
        const string &op = e[0];
        if (op == "start") {
            Options opt(b.o);
            int s = info->start(opt.a.p());
            o.raw(",{\"op\":\"start\",\"start\":"); o.num(s); o.raw(",\"touch\":"); o.raw(opt.touched() ? "true}" : "false}");
        } else if (op == "batch" || op == "ref") {
            auto f = op == "ref" ? info->indicator_ref : info->indicator;
            if (!f) continue;
            int n = std::stoi(e[1]);
            Options opt(b.o);
            Inputs in(b.d, 0, n);
            Outputs y(info->outputs, room(info, b.o, n));
            Call c;
            int ret = c.call([&] { return f(n, in.ptr.data(), opt.a.p(), y.ptr.data()); });
            y.settle(ret == TI_OKAY);
            o.raw(",{\"op\":\"" + op + "\",\"n\":"); o.num(n);
            o.raw(",\"ret\":"); o.num(ret);
            common(o, y, in.touched(b.d, 0, n) || opt.touched(), c.net, c.exc);
        } else if (op == "far") {    /* far batch|ref|stream n c1 c2 ..: a history of n bars that ends in the block's, which are repeated to fill it; chunks of a stream likewise */
            string what = e[1];
            auto f = what == "ref" ? info->indicator_ref : info->indicator;
            if (what == "stream" ? !info->stream_new : !f) continue;
            int n = std::stoi(e[2]), bars = b.d.bars, keep = std::max(0, std::min(bars, n) - std::max(0, info->start(b.o.data())));
            Series far = b.d;
            far.bars = n;
            for (auto &v : far.v) {
                vector<double> w(n);
                for (int i = 0; i < n; ++i) w[i] = v[((i - n) % bars + bars) % bars];
                v = w;
            }
            Options opt(b.o);
            string chunks;
            vector<vector<double>> acc(info->outputs);
            vector<long> cnt(info->outputs, 0);
            bool bad = false, touched = false;
            long net; int exc, ret, prog0 = 0;
            auto take = [&](Outputs &y) {
                for (int j = 0; j < info->outputs; ++j) {
                    size_t c = y.a[j]->count();
                    cnt[j] += c; bad |= y.a[j]->before() || y.a[j]->hole();
                    acc[j].insert(acc[j].end(), y.a[j]->p(), y.a[j]->p() + std::min<size_t>(c, y.a[j]->n));
                }
            };
            if (what != "stream") {
                Inputs in(far, 0, n);
                Outputs y(info->outputs, room(info, b.o, n));
                Call c;
                ret = c.call([&] { return f(n, in.ptr.data(), opt.a.p(), y.ptr.data()); });
                y.settle(ret == TI_OKAY);
                take(y); net = c.net; exc = c.exc; touched = in.touched(far, 0, n) || opt.touched();
            } else {
                ti_stream *st = nullptr;
                Call c;
                ret = c.call([&] { return info->stream_new(opt.a.p(), &st); });
                net = c.net; exc = c.exc;
                if (ret == TI_OKAY) {
                    prog0 = ti_stream_get_progress(st);
                    for (int from = 0, k = 0; from < n; ++k) {
                        int m = std::min(std::stoi(e[3 + k % (e.size() - 3)]), n - from);
                        Inputs in(far, from, m);
                        Outputs y(info->outputs, room(st, m));
                        Call r;
                        int rr = r.call([&] { return ti_stream_run(st, m, in.ptr.data(), y.ptr.data()); });
                        y.settle(rr == TI_OKAY);
                        net += r.net; exc |= r.exc; touched |= in.touched(far, from, m);
                        chunks += (chunks.empty() ? "[" : ",[") + std::to_string(m) + "," + std::to_string(rr) + "," + std::to_string(ti_stream_get_progress(st)) + ",[";
                        for (int j = 0; j < info->outputs; ++j) chunks += (j ? "," : "") + std::to_string(y.a[j]->count());
                        chunks += "]," + std::to_string(from) + "]";
                        take(y);
                        from += m;
                    }
                    Call fr;
                    fr.call([&] { ti_stream_free(st); return 0; });
                    net += fr.net;
                }
            }
            o.raw(",{\"op\":\"far\",\"what\":\"" + what + "\",\"n\":"); o.num(n);
            o.raw(",\"ret\":"); o.num(ret);
            o.raw(",\"prog0\":"); o.num(prog0);
            o.raw(",\"chunks\":[" + chunks + "],\"cnt\":[");
            for (int j = 0; j < info->outputs; ++j) { if (j) o.raw(","); o.num(cnt[j]); }
            o.raw("],\"hole\":"); o.raw(bad ? "true" : "false");
            o.raw(",\"touch\":"); o.raw(touched ? "true" : "false");
            o.raw(",\"net\":"); o.num(net);
            o.raw(",\"exc\":"); o.num(exc);
            o.raw(",\"out\":[");
            for (int j = 0; j < info->outputs; ++j) { if (j) o.raw(","); int k = std::min<int>(keep, acc[j].size()); o.reals(acc[j].data() + acc[j].size() - k, k); }
            o.raw("]}");
        } else if (op == "oom") {    /* oom batch n | oom ref n | oom stream c1 c2 ...: every allocation fails once */
            string what = e[1];
            if (what == "ref" && !info->indicator_ref) continue;
            if (what == "stream" && !info->stream_new) continue;
            auto emit = [&](int stage, long k, int ret, long net, int exc, bool same) {
                o.raw(",{\"op\":\"oom\",\"what\":\"" + what + "\",\"stage\":"); o.num(stage); o.raw(",\"k\":"); o.num(k); o.raw(",\"ret\":"); o.num(ret);
                o.raw(",\"net\":"); o.num(net); o.raw(",\"exc\":"); o.num(exc); o.raw(same ? ",\"same\":true}" : ",\"same\":false}");
                o.flush();
            };
            if (what != "stream") {
                auto f = what == "ref" ? info->indicator_ref : info->indicator;
                int n = std::stoi(e[2]);
                auto go = [&](long k, Call &c, vector<vector<double>> &out) {
                    Options opt(b.o); Inputs in(b.d, 0, n); Outputs y(info->outputs, room(info, b.o, n));
                    int ret = c.call([&] { return f(n, in.ptr.data(), opt.a.p(), y.ptr.data()); }, k);
                    y.settle(false);
                    bool bad = in.touched(b.d, 0, n) || opt.touched();
                    for (int j = 0; j < info->outputs; ++j) { bad |= y.a[j]->before() || y.a[j]->count() > (size_t)n; out.emplace_back(y.a[j]->p(), y.a[j]->p() + std::min<size_t>(n, y.a[j]->count())); }
                    return bad ? -7 : ret;
                };
                Call c; vector<vector<double>> clean; int r0 = go(-1, c, clean);
                for (long k = 1; k <= c.n && k <= 400; ++k) {
                    Call f1; vector<vector<double>> y1; int r1 = go(k, f1, y1);
                    Call f2; vector<vector<double>> y2; int r2 = go(-1, f2, y2);
                    emit(0, k, r1, f1.net, f1.exc, r2 == r0 && same_out(y2, clean) && (r1 != TI_OKAY || same_out(y1, clean)));
                }
            } else {
                auto make = [&](ti_stream *&st, Call &c, long k) {
                    Options opt(b.o); st = (ti_stream *)0x10;
                    int r = c.call([&] { return info->stream_new(opt.a.p(), &st); }, k);
                    return opt.touched() ? -7 : r;
                };
                auto feed = [&](ti_stream *st, int from, int n, Call &c, long k, vector<vector<double>> &out) {
                    Inputs in(b.d, from, n); Outputs y(info->outputs, room(st, n));
                    int r = c.call([&] { return info->stream_run(st, n, in.ptr.data(), y.ptr.data()); }, k);
                    y.settle(false);
                    for (int j = 0; j < info->outputs; ++j) out.emplace_back(y.a[j]->p(), y.a[j]->p() + std::min<size_t>(n, y.a[j]->count()));
                    return in.touched(b.d, from, n) ? -7 : r;
                };
                ti_stream *st; Call c;
                int r0 = make(st, c, -1);
                vector<vector<vector<double>>> clean; vector<long> allocs;
                if (r0 == TI_OKAY) {
                    int from = 0;
                    for (size_t q = 2; q < e.size(); ++q) { int n = std::min(std::stoi(e[q]), b.d.bars - from); clean.emplace_back(); Call r; feed(st, from, n, r, -1, clean.back()); allocs.push_back(r.n); from += n; }
                    Call fr; fr.call([&] { info->stream_free(st); return 0; });
                }
                for (long k = 1; k <= c.n && k <= 400; ++k) {
                    ti_stream *s1; Call f1; int r1 = make(s1, f1, k);
                    long net = f1.net;
                    bool same = true;
                    if (r1 == TI_OKAY) {   /* it did without: must work as usual */
                        vector<vector<double>> y; Call r;
                        if (!clean.empty()) { feed(s1, 0, std::min(std::stoi(e[2]), b.d.bars), r, -1, y); same = same_out(y, clean[0]); net += r.net; }
                        Call fr; fr.call([&] { info->stream_free(s1); return 0; }); net += fr.net;
                    }
                    emit(0, k, r1, net, f1.exc, same);
                }
                for (size_t q = 0; q < allocs.size(); ++q) for (long k = 1; k <= allocs[q] && k <= 40; ++k) {
                    ti_stream *s1; Call f1; if (make(s1, f1, -1) != TI_OKAY) continue;
                    int from = 0, ret = -9, exc = 0; long net = f1.net; bool same = true;
                    for (size_t p = 0; p < allocs.size(); ++p) {
                        int n = std::min(std::stoi(e[p + 2]), b.d.bars - from);
                        vector<vector<double>> y; Call r;
                        if (p == q) {
                            int before = ti_stream_get_progress(s1);
                            ret = feed(s1, from, n, r, k, y); exc |= r.exc; net += r.net;
                            if (ret != TI_OKAY) break;     /* such a stream can only be freed */
                        } else { feed(s1, from, n, r, -1, y); net += r.net; }
                        same &= same_out(y, clean[p]);
                        from += n;
                    }
                    Call fr; fr.call([&] { info->stream_free(s1); return 0; }); net += fr.net;
                    emit(q + 1, k, ret, net, exc, same);
                }
            }
        } else if (op == "tail") {   /* a batch on the whole series, bars from n on replaced */
            int n = std::stoi(e[1]), mode = std::stoi(e[2]);
            static const double FACTOR[] = {1.5, 0.5, 3, 1.0625};
            Series alt = b.d;
            for (int j = 0; j < alt.inputs; ++j)
                for (int i = n; i < alt.bars; ++i) alt.v[j][i] = b.d.v[j][mode & 4 ? i : alt.bars - 1 - (i - n)] * FACTOR[mode & 3];
            Options opt(b.o);
            Inputs in(alt, 0, alt.bars);
            Outputs y(info->outputs, room(info, b.o, alt.bars));
            Call c;
            int ret = c.call([&] { return info->indicator(alt.bars, in.ptr.data(), opt.a.p(), y.ptr.data()); });
            y.settle(ret == TI_OKAY);
            o.raw(",{\"op\":\"tail\",\"n\":"); o.num(n);
            o.raw(",\"ret\":"); o.num(ret);
            common(o, y, false, c.net, c.exc);
        } else if (op == "stream") {
            if (!info->stream_new) continue;
            Options opt(b.o);
            ti_stream *st = (ti_stream *)0x10;
            Call c;
            int ret = c.call([&] { return info->stream_new(opt.a.p(), &st); });
            bool ghost = ret != TI_OKAY && st != (ti_stream *)0x10 && st != nullptr;
            o.raw(",{\"op\":\"stream\",\"ret\":"); o.num(ret);
            o.raw(",\"ghost\":"); o.raw(ghost ? "true" : "false");
            Outputs all(info->outputs, 0);
            long net = c.net; int exc = c.exc; bool touched = opt.touched(), bad = false;
            vector<vector<double>> acc(info->outputs);
            int prog0 = 0; bool self = true;
            string chunks;
            if (ret == TI_OKAY) {
                prog0 = ti_stream_get_progress(st);
                self = ti_stream_get_info(st) == info;
                int from = 0;
                for (size_t k = 1; k < e.size(); ++k) {
                    int n = std::min(std::stoi(e[k]), b.d.bars - from);
                    Inputs in(b.d, from, n);
                    Outputs y(info->outputs, room(st, n));
                    /* options must have been copied: scribble over the caller's */
                    for (size_t q = 0; q < b.o.size(); ++q) opt.a.p()[q] = -12345.5;
                    Call r;
                    auto run = k % 2 ? info->stream_run : ti_stream_run;
                    int rr = r.call([&] { return run(st, n, in.ptr.data(), y.ptr.data()); });
                    y.settle(rr == TI_OKAY);
                    net += r.net; exc |= r.exc;
                    touched |= in.touched(b.d, from, n);
                    chunks += (chunks.empty() ? "[" : ",[") + std::to_string(n) + "," + std::to_string(rr) + "," + std::to_string(ti_stream_get_progress(st)) + ",[";
                    for (int j = 0; j < info->outputs; ++j) {
                        chunks += (j ? "," : "") + std::to_string(y.a[j]->count());
                        bad |= y.a[j]->before() || y.a[j]->hole();
                        size_t cnt = std::min<size_t>(y.a[j]->count(), y.a[j]->n);
                        acc[j].insert(acc[j].end(), y.a[j]->p(), y.a[j]->p() + cnt);
                    }
                    chunks += "]," + std::to_string(from) + "]";
                    self = self && ti_stream_get_info(st) == info;
                    from += n;
                }
                Call fr;
                fr.call([&] { if (e.size() % 2) ti_stream_free(st); else info->stream_free(st); return 0; });
                net += fr.net; exc |= fr.exc;
            }
            o.raw(",\"prog0\":"); o.num(prog0);
            o.raw(",\"self\":"); o.raw(self ? "true" : "false");
            o.raw(",\"chunks\":[" + chunks + "]");
            o.raw(",\"hole\":"); o.raw(bad ? "true" : "false");
            o.raw(",\"touch\":"); o.raw(touched ? "true" : "false");
            o.raw(",\"net\":"); o.num(net);
            o.raw(",\"exc\":"); o.num(exc);
            o.raw(",\"out\":[");
            for (int j = 0; j < info->outputs; ++j) { if (j) o.raw(","); o.reals(acc[j].data(), acc[j].size()); }
            o.raw("]}");
        }
        o.flush();
    }
}

static bool read_block(Block &b) {
    b = Block();
    char *line = nullptr; size_t cap = 0; bool got = false;
    while (getline(&line, &cap, stdin) > 0) {
        std::istringstream s(line);
        string w; s >> w;
        if (w.empty()) continue;
        got = true;
        Block &cur = b.roles.empty() ? b : b.roles.back();
        if (w == ".") break;
        if (w == "B") s >> b.id >> b.ind;
        else if (w == "R") { b.roles.emplace_back(); s >> b.roles.back().ind; }
        else if (w == "O") { string h; while (s >> h) cur.o.push_back(of_bits(strtoull(h.c_str(), 0, 16))); }
        else if (w == "S") { s >> cur.d.inputs >> cur.d.bars; }
        else if (w == "V") { vector<double> v; string h; while (s >> h) v.push_back(of_bits(strtoull(h.c_str(), 0, 16))); cur.d.v.push_back(v); }
        else if (w == "E") { vector<string> e; string h; while (s >> h) e.push_back(h); b.ev.push_back(e); }
    }
    free(line);
    return got;
}

int main(int argc, char **argv) {
    Block b;
    int limit = argc > 1 ? atoi(argv[1]) : 20;
    while (read_block(b)) {
        Out o;
        o.raw("{\"id\":\"" + b.id + "\",\"ind\":\"" + b.ind + "\",\"o\":"); o.reals(b.o.data(), b.o.size());
        o.raw(",\"bars\":"); o.num(b.d.bars);
        o.raw(",\"in\":[");
        for (size_t j = 0; j < b.d.v.size(); ++j) { if (j) o.raw(","); o.reals(b.d.v[j].data(), b.d.v[j].size()); }
        o.raw("],\"roles\":[");
        for (size_t r = 0; r < b.roles.size(); ++r) {
            if (r) o.raw(",");
            o.raw("{\"ind\":\"" + b.roles[r].ind + "\",\"bars\":"); o.num(b.roles[r].d.bars); o.raw(",\"o\":"); o.reals(b.roles[r].o.data(), b.roles[r].o.size()); o.raw("}");
        }
        o.raw("],\"ev\":[{\"op\":\"begin\"}");
        o.flush();
        pid_t p = fork();
        if (p < 0) { perror("fork"); return 3; }
        if (p == 0) {
            /* processor time, so that a busy machine is not taken for a hang; and a wider limit for what only waits */
            struct itimerval it = {{0, 0}, {limit, 0}};
            setitimer(ITIMER_PROF, &it, nullptr);
            alarm(6 * limit);
            run_block(b);
            _exit(0);
        }
        int st;
        waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 99) return 3;
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
            o.raw(",{\"op\":\"fault\",\"sig\":"); o.num(WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)); o.raw("}");
        }
        o.raw("]}\n");
        o.flush();
    }
    return 0;
}

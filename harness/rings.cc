// Replays operations of spec/Rings.tla on the buffers of utils/.
// line: kind cap[,cap..] op...   with ops  s  a<x>  w<k>,<x>  r<cap>  p<b>,<x>  o (observe)
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include "indicators.h"
#include "utils/ringbuf.hh"
#include "utils/buffer.h"
#include "utils/localbuffer.h"

struct Op { char c; int k; double x; };
static std::vector<Op> ops;
static std::vector<int> caps;

template<class R> void look(R &r, int n, const std::vector<double*> &ph) {
    R const &c = r;
    printf(" O at");
    for (int i = 0; i < n; i++) printf(" %g", (double)c[i]);
    printf(" cur %g", (double)(TI_REAL)c);
    for (int p = 1; p <= n; p++) {
        TI_REAL *a = r.find_max(p), *b = r.find_min(p);
        printf(" m %g %d %g %d", *a, r.iterator_to_age(a), *b, r.iterator_to_age(b));
    }
    printf(" ph %d", (int)(r.phend() - r.phbegin()));
    for (TI_REAL *q = r.phbegin(); q != r.phend(); ++q) printf(" %g %d", *q, r.iterator_to_age(q));
}
template<int N> void fixed() {
    ringbuf<N> *r = new ringbuf<N>();
    ringbuf<N> other;                       // stepped along, must not matter
    for (auto &o : ops) {
        if (o.c == 's') { if (o.k == 0) step(*r, other); else r->step(); }
        else if (o.c == 'a') *r = o.x;
        else if (o.c == 'w') (*r)[o.k] = o.x;
        else if (o.c == 'o') look(*r, N, {});
    }
    delete r;
}
static void heap() {
    ringbuf<0> r(caps[0]);
    int n = caps[0];
    for (auto &o : ops) {
        if (o.c == 's') r.step();
        else if (o.c == 'a') r = o.x;
        else if (o.c == 'r') { n = o.k; r.resize(n); }
        else if (o.c == 'o') look(r, n, {});
    }
}
static void summed(bool quiet) {
    ti_buffer *b = ti_buffer_new(caps[0]);
    int n = 0;
    for (auto &o : ops) {
        if (o.c == 'p') { if (quiet) ti_buffer_qpush(b, o.x); else ti_buffer_push(b, o.x); n++; }
        else if (o.c == 'o') {
            int m = n < caps[0] ? n : caps[0];
            printf(" O buf %d", m);
            for (int i = 0; i < m; i++) printf(" %g", (double)ti_buffer_get(b, -i));
            if (m == caps[0]) printf(" old %g", (double)ti_buffer_get(b, 1));
            if (!quiet) printf(" sum %g", (double)b->sum);
        }
    }
    ti_buffer_free(b);
}
/* ---- far: n numbers of a fixed sequence are pushed, then single places are looked at
   line: far <kind> cap n age.. m p..   answers: the numbers at the ages, then maximum, its age, minimum, its age of every p */
static double far_value(long i) { long j = i % 1009; return (double)((j * j * 7 + 3 * j + i / 1009) % 1013 - 500); }
template<class R> static void far_ring(R &r, long n, const std::vector<int> &ages, const std::vector<int> &ps) {
    for (long i = 0; i < n; i++) { if (i) r.step(); r = far_value(i); }
    R const &c = r;
    for (int a : ages) printf(" %g", (double)c[a]);
    for (int p : ps) {
        TI_REAL *a = r.find_max(p), *b = r.find_min(p);
        printf(" %g %d %g %d", *a, r.iterator_to_age(a), *b, r.iterator_to_age(b));
    }
}
template<int N> static void far_fixed(long n, const std::vector<int> &ages, const std::vector<int> &ps) {
    ringbuf<N> *r = new ringbuf<N>(); far_ring(*r, n, ages, ps); delete r;
}
struct single { int a, b; BUFFERS(BUFFER(w) BUFFER(x)) };
static int far_line(std::istringstream &in) {
    std::string kind, t;
    long n; int cap;
    std::vector<int> ages, ps;
    in >> kind >> cap >> n;
    bool m = false;
    while (in >> t) { if (t == "m") m = true; else (m ? ps : ages).push_back(atoi(t.c_str())); }
    printf("R");
    if (kind == "heap") { ringbuf<0> r(cap); far_ring(r, n, ages, ps); }
    else if (kind == "again") { ringbuf<0> r(cap + 7); for (int i = 0; i < cap + 9; i++) { r = 9999; r.step(); } r.resize(cap); far_ring(r, n, ages, ps); }
    else if (kind == "ring") switch (cap) {
        case 64: far_fixed<64>(n, ages, ps); break;
        case 100: far_fixed<100>(n, ages, ps); break;
        case 129: far_fixed<129>(n, ages, ps); break;
        case 256: far_fixed<256>(n, ages, ps); break;
        case 1000: far_fixed<1000>(n, ages, ps); break;
        default: return 3;
    } else if (kind == "sum" || kind == "quiet") {
        ti_buffer *b = ti_buffer_new(cap);
        for (long i = 0; i < n; i++) { if (kind == "quiet") ti_buffer_qpush(b, far_value(i)); else ti_buffer_push(b, far_value(i)); }
        for (int a : ages) printf(" %g", (double)ti_buffer_get(b, -a));
        if (kind == "sum") printf(" %g", (double)b->sum);
        ti_buffer_free(b);
    } else if (kind == "multi") {
        single *s = (single*)calloc(1, sizeof(single));
        BUFFER_INIT(s, w, 3);
        BUFFER_INIT(s, x, cap);
        int size = BUFFERS_SIZE(s);
        s = (single*)realloc(s, sizeof(single) + sizeof(TI_REAL) * size);
        for (long i = 0; i < n; i++) { BUFFER_PUSH(s, w, 5555) BUFFER_PUSH(s, x, far_value(i)) }
        for (int a : ages) { double v; BUFFER_AT(v, s, x, -a) printf(" %g", v == BUFFER_AT1(s, x, -a) ? v : 1e30); }
        free(s);
    } else return 3;
    printf("\n"); fflush(stdout);
    return 0;
}
struct multi {
    int a, b;
    BUFFERS(
        BUFFER(x)
        BUFFER(y)
        BUFFER(z)
    )
};
static void multiple() {
    multi *s = (multi*)calloc(1, sizeof(multi));
    s->a = 77; s->b = 88;
    BUFFER_INIT(s, x, caps[0]);
    BUFFER_INIT(s, y, caps[1]);
    BUFFER_INIT(s, z, caps[2]);
    int size = BUFFERS_SIZE(s);
    s = (multi*)realloc(s, sizeof(multi) + sizeof(TI_REAL) * size);
    int n[3] = {0, 0, 0};
    for (auto &o : ops) {
        if (o.c == 'p') {
            if (o.k == 0) BUFFER_PUSH(s, x, o.x)
            if (o.k == 1) BUFFER_PUSH(s, y, o.x)
            if (o.k == 2) BUFFER_PUSH(s, z, o.x)
            n[o.k]++;
        } else if (o.c == 'o') {
            printf(" O keep %d %d %d", s->a, s->b, size);
            for (int k = 0; k < 3; k++) {
                int m = n[k] < caps[k] ? n[k] : caps[k];
                printf(" buf %d", m);
                for (int i = 0; i < m; i++) {
                    double v = 0, u = 0;
                    if (k == 0) { u = BUFFER_AT1(s, x, -i); BUFFER_AT(v, s, x, -i) }
                    if (k == 1) { u = BUFFER_AT1(s, y, -i); BUFFER_AT(v, s, y, -i) }
                    if (k == 2) { u = BUFFER_AT1(s, z, -i); BUFFER_AT(v, s, z, -i) }
                    printf(" %g %g", u, v);
                }
                if (m == caps[k]) {         // counting forward from the newest comes to the oldest, and round again
                    double v[2] = {0, 0};
                    if (k == 0) { v[0] = BUFFER_AT1(s, x, 1); BUFFER_AT(v[1], s, x, 1 + 2 * caps[k]) }
                    if (k == 1) { v[0] = BUFFER_AT1(s, y, 1); BUFFER_AT(v[1], s, y, 1 + 2 * caps[k]) }
                    if (k == 2) { v[0] = BUFFER_AT1(s, z, 1); BUFFER_AT(v[1], s, z, 1 + 2 * caps[k]) }
                    printf(" old %g %g", v[0], v[1]);
                }
            }
        }
    }
    free(s);
}
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string kind, c, t;
        in >> kind;
        if (kind == "far") { int r = far_line(in); if (r) return r; continue; }
        in >> c;
        caps.clear(); ops.clear();
        { std::istringstream cs(c); while (std::getline(cs, t, ',')) caps.push_back(atoi(t.c_str())); }
        int nstep = 0;
        while (in >> t) {
            Op o{t[0], 0, 0};
            size_t comma = t.find(',');
            if (t[0] == 's') o.k = nstep++ % 2;
            if (t[0] == 'a') o.x = atof(t.c_str() + 1);
            if (t[0] == 'r') o.k = atoi(t.c_str() + 1);
            if (t[0] == 'w' || t[0] == 'p') { o.k = atoi(t.c_str() + 1); o.x = atof(t.c_str() + comma + 1); }
            ops.push_back(o);
        }
        printf("R");
        if (kind == "heap") heap();
        else if (kind == "sum") summed(false);
        else if (kind == "quiet") summed(true);
        else if (kind == "multi") multiple();
        else switch (caps[0]) {
            case 1: fixed<1>(); break;  case 2: fixed<2>(); break;  case 3: fixed<3>(); break;  case 4: fixed<4>(); break;
            case 5: fixed<5>(); break;  case 6: fixed<6>(); break;  case 7: fixed<7>(); break;  case 8: fixed<8>(); break;
            case 16: fixed<16>(); break;  case 50: fixed<50>(); break;
            default: return 3;
        }
        printf("\n");
        fflush(stdout);
    }
    return 0;
}

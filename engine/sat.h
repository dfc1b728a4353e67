// Small incremental CDCL solver for AIG cones.  Decisions and propagation are
// restricted to the variables of the current query's cone (definitions outside
// the cone are always extendable), learnt clauses are kept.
#pragma once
#include <vector>
#include <cstdint>
#include <algorithm>
#include <cmath>
struct Sat {
    typedef int Lit;                       // 2v / 2v+1
    struct Watch { int c; Lit b; };
    std::vector<int> db;                   // clause: [size|learnt<<30, lbd, lits...]
    std::vector<std::vector<Watch>> w;
    std::vector<signed char> val;          // per literal: 0 unassigned 1 true -1 false
    std::vector<int> level, reason, trail, lim, seen, stamp;
    std::vector<double> act; std::vector<char> phase;
    std::vector<int> heap, hpos;
    std::vector<int> learnts;
    double inc = 1; size_t qh = 0; int cur = 0; bool okay = true;
    long conflicts = 0, maxlearnt = 20000, nlearnt = 0, wasted = 0;
    long props = 0;
    int nvars() const { return (int)level.size(); }
    int newvar() {
        int v = nvars(); level.push_back(0); reason.push_back(-1); seen.push_back(0); stamp.push_back(0);
        act.push_back(0); phase.push_back(0); hpos.push_back(-1);
        val.push_back(0); val.push_back(0); w.emplace_back(); w.emplace_back(); return v;
    }
    // heap
    bool lt(int a, int b) const { return act[a] > act[b]; }
    void up(int i) { int x = heap[i]; while (i) { int p = (i-1)/2; if (!lt(x, heap[p])) break; heap[i] = heap[p]; hpos[heap[i]] = i; i = p; } heap[i] = x; hpos[x] = i; }
    void down(int i) { int x = heap[i], n = (int)heap.size(); for (;;) { int c = 2*i+1; if (c >= n) break; if (c+1 < n && lt(heap[c+1], heap[c])) c++; if (!lt(heap[c], x)) break; heap[i] = heap[c]; hpos[heap[i]] = i; i = c; } heap[i] = x; hpos[x] = i; }
    void hins(int v) { if (hpos[v] >= 0) return; hpos[v] = (int)heap.size(); heap.push_back(v); up(hpos[v]); }
    int hpop() { int x = heap[0]; int l = heap.back(); heap.pop_back(); hpos[x] = -1; if (!heap.empty()) { heap[0] = l; hpos[l] = 0; down(0); } return x; }
    void bump(int v) { if ((act[v] += inc) > 1e100) { for (auto &a : act) a *= 1e-100; inc *= 1e-100; } if (hpos[v] >= 0) up(hpos[v]); }
    int dl() const { return (int)lim.size(); }
    void enq(Lit l, int r) { val[l] = 1; val[l^1] = -1; level[l>>1] = dl(); reason[l>>1] = r; trail.push_back(l); }
    int mk(const std::vector<Lit> &c, bool learnt, int lbd) {
        int r = (int)db.size(); db.push_back((int)c.size() | (learnt ? 1<<30 : 0)); db.push_back(lbd);
        for (Lit l : c) db.push_back(l);
        w[c[0]^1].push_back({r, c[1]}); w[c[1]^1].push_back({r, c[0]});
        if (learnt) { learnts.push_back(r); nlearnt++; }
        return r;
    }
    // add a clause at level 0
    void add(std::vector<Lit> c) {
        std::vector<Lit> d;
        for (Lit l : c) { if (val[l] == 1) return; if (val[l] == 0) d.push_back(l); }
        if (d.empty()) { okay = false; return; }
        if (d.size() == 1) { enq(d[0], -1); if (prop() >= 0) okay = false; return; }
        mk(d, false, 0);
    }
    int prop() {
        while (qh < trail.size()) {
            Lit p = trail[qh++]; props++;
            std::vector<Watch> &ws = w[p];
            size_t i = 0, j = 0, n = ws.size(); Lit np = p ^ 1;
            bool top = lim.empty();
            for (; i < n; ) {
                Watch x = ws[i++];
                if (val[x.b] == 1) { ws[j++] = x; continue; }
                int *c = &db[x.c]; int sz = c[0] & 0x3fffffff; Lit *L = c + 2;
                if (L[0] == np) { L[0] = L[1]; L[1] = np; }
                Lit f = L[0];
                if (f != x.b && val[f] == 1) { ws[j++] = {x.c, f}; continue; }
                bool found = false;
                for (int k = 2; k < sz; k++) if (val[L[k]] != -1) { L[1] = L[k]; L[k] = np; w[L[1]^1].push_back({x.c, f}); found = true; break; }
                if (found) continue;
                ws[j++] = {x.c, f};
                if (val[f] == -1) { while (i < n) ws[j++] = ws[i++]; ws.resize(j); qh = trail.size(); return x.c; }
                if (top || stamp[f>>1] == cur) enq(f, x.c);
            }
            ws.resize(j);
        }
        return -1;
    }
    void cancel(int d) {
        if (dl() <= d) return;
        for (int i = (int)trail.size()-1; i >= lim[d]; i--) {
            Lit l = trail[i]; int v = l>>1; val[l] = val[l^1] = 0; phase[v] = l & 1; reason[v] = -1;
            if (stamp[v] == cur) hins(v);
        }
        trail.resize(lim[d]); qh = trail.size(); lim.resize(d);
    }
    std::vector<Lit> out; std::vector<int> tmp;
    bool redundant(Lit l) { // one-step minimisation
        int r = reason[l>>1]; if (r < 0) return false;
        int *c = &db[r]; int sz = c[0] & 0x3fffffff;
        for (int k = 0; k < sz; k++) { Lit q = c[2+k]; if ((q>>1) != (l>>1) && !seen[q>>1] && level[q>>1] > 0) return false; }
        return true;
    }
    int analyze(int confl) {
        out.clear(); out.push_back(0); int cnt = 0; Lit p = -1; int idx = (int)trail.size()-1; tmp.clear();
        do {
            int *c = &db[confl]; int sz = c[0] & 0x3fffffff;
            for (int k = 0; k < sz; k++) {
                Lit q = c[2+k]; if (q == p) continue; int v = q>>1;
                if (!seen[v] && level[v] > 0) { bump(v); seen[v] = 1; tmp.push_back(v); if (level[v] >= dl()) cnt++; else out.push_back(q); }
            }
            while (!seen[trail[idx]>>1]) idx--;
            p = trail[idx]; idx--; confl = reason[p>>1]; cnt--; 
            if (cnt > 0) seen[p>>1] = 2; // resolved
        } while (cnt > 0);
        out[0] = p ^ 1;
        size_t j = 1;
        for (size_t i = 1; i < out.size(); i++) if (!redundant(out[i])) out[j++] = out[i];
        out.resize(j);
        int bt = 0;
        if (out.size() > 1) { size_t m = 1; for (size_t i = 2; i < out.size(); i++) if (level[out[i]>>1] > level[out[m]>>1]) m = i; std::swap(out[1], out[m]); bt = level[out[1]>>1]; }
        for (int v : tmp) seen[v] = 0;
        return bt;
    }
    int lbd() { int n = 0; static std::vector<int> s; static int st = 0; st++; if (s.size() < lim.size()+2) s.resize(lim.size()*2+16, 0); for (Lit l : out) { int x = level[l>>1]; if ((size_t)x >= s.size()) s.resize(x+16, 0); if (s[x] != st) { s[x] = st; n++; } } return n; }
    void reduce() {
        std::vector<std::pair<int,int>> o;
        for (int c : learnts) o.push_back({db[c+1], c});
        std::stable_sort(o.begin(), o.end(), [](const std::pair<int,int> &a, const std::pair<int,int> &b) { return a.first < b.first; });
        std::vector<char> locked; size_t keep = o.size()/2; learnts.clear(); nlearnt = 0;
        for (size_t i = 0; i < o.size(); i++) {
            int c = o[i].second; int v = db[c+2]>>1; bool lk = (val[db[c+2]] == 1 && reason[v] == c);
            if (i < keep || lk || o[i].first <= 2) { learnts.push_back(c); nlearnt++; }
            else { db[c+1] = -1; wasted += (db[c] & 0x3fffffff) + 2; }
        }
        for (auto &ws : w) { size_t j = 0; for (auto &x : ws) if (db[x.c+1] != -1) ws[j++] = x; ws.resize(j); }
    }
    void compact() { // at level 0 only
        std::vector<int> nd; nd.reserve(db.size() - wasted);
        for (auto &ws : w) ws.clear();
        std::vector<int> nl; size_t i = 0;
        for (int v = 0; v < nvars(); v++) reason[v] = -1;
        while (i < db.size()) {
            int sz = db[i] & 0x3fffffff; bool le = db[i] >> 30 & 1;
            bool del = db[i+1] == -1;
            if (!del) for (int k = 0; k < sz; k++) if (val[db[i+2+k]] == 1) { del = true; break; }
            if (!del) {
                int r = (int)nd.size(); nd.push_back(db[i]); nd.push_back(db[i+1]);
                int n = 0;
                for (int k = 0; k < sz; k++) if (val[db[i+2+k]] == 0) { nd.push_back(db[i+2+k]); n++; }
                nd[r] = n | (le ? 1<<30 : 0);
                w[nd[r+2]^1].push_back({r, nd[r+3]}); w[nd[r+3]^1].push_back({r, nd[r+2]});
                if (le) nl.push_back(r);
            }
            i += sz + 2;
        }
        db.swap(nd); learnts.swap(nl); nlearnt = (long)learnts.size(); wasted = 0;
    }
    static double luby(double y, int x) { int size, seq; for (size = 1, seq = 0; size < x+1; seq++, size = 2*size+1); while (size-1 != x) { size = (size-1)>>1; seq--; x = x % size; } return std::pow(y, seq); }
    // cone: variables of the query (stamped by the caller with ++cur); returns 1 sat, 0 unsat, -1 limit
    int solve(Lit a, const std::vector<int> &cone, long limit) {
        if (!okay) return 0;
        cancel(0);
        if (wasted > 1000000 && wasted > (long)db.size()/3) compact();
        for (int v : heap) hpos[v] = -1;
        heap.clear();
        for (int v : cone) { stamp[v] = cur; if (val[2*v] == 0) { hpos[v] = (int)heap.size(); heap.push_back(v); } }
        for (int i = (int)heap.size()/2 - 1; i >= 0; i--) down(i);
        if (prop() >= 0) { okay = false; return 0; }
        if (val[a] == -1) return 0;
        long start = conflicts; int rs = 0; long next = conflicts + (long)(luby(2, rs)*100);
        for (;;) {
            int c = prop();
            if (c >= 0) {
                conflicts++;
                if (dl() == 0) { okay = false; return 0; }
                int bt = analyze(c); int d = lbd();
                cancel(bt);
                if (out.size() == 1) { enq(out[0], -1); }
                else { int r = mk(out, true, d); enq(out[0], r); }
                inc /= 0.95;
                if (nlearnt > maxlearnt) { reduce(); maxlearnt += 500; }
                if (limit > 0 && conflicts - start > limit) { cancel(0); return -1; }
            } else {
                if (conflicts >= next) { rs++; next = conflicts + (long)(luby(2, rs)*100); cancel(0); continue; }
                if (dl() == 0) {
                    if (val[a] == -1) { return 0; }
                    lim.push_back((int)trail.size());
                    if (val[a] == 0) enq(a, -1);
                    continue;
                }
                if (val[a] == -1) { cancel(0); return 0; }
                int v = -1;
                while (!heap.empty()) { v = hpop(); if (val[2*v] == 0) break; v = -1; }
                if (v < 0) return 1;   // model in val until the next call
                lim.push_back((int)trail.size());
                enq(2*v + (phase[v] ? 1 : 0), -1);
            }
        }
    }
};

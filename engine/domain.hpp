// Value domain of the analyser: every IR value is abstracted to a vector of
// boolean functions (BDDs) over "bits of terms"; terms are hash-consed operator
// applications, integer arithmetic is kept in polynomial normal form mod 2^w.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <ctime>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <cmath>

namespace vfx {

struct Undecided : std::runtime_error { using std::runtime_error::runtime_error; };

typedef int Node;   // BDD node
typedef int Val;    // hash-consed bit vector
typedef int TermId;

struct VecHash {
    size_t operator()(const std::vector<int>& v) const {
        uint64_t h = 1469598103934665603ull ^ v.size();
        for (int x : v) { h ^= (uint32_t)x; h *= 1099511628211ull; h ^= h >> 29; }
        return (size_t)h;
    }
};

struct Bdd {
    struct N { int v, lo, hi; };
    std::vector<N> n;
    std::vector<uint64_t> varKey;
    struct K { int a, b, c; bool operator==(const K& o) const { return a == o.a && b == o.b && c == o.c; } };
    struct KH { size_t operator()(const K& k) const {
        uint64_t h = (uint64_t)(uint32_t)k.a * 0x9E3779B97F4A7C15ull;
        h ^= (uint64_t)(uint32_t)k.b * 0xC2B2AE3D27D4EB4Full; h = (h << 31) | (h >> 33);
        h ^= (uint64_t)(uint32_t)k.c * 0x165667B19E3779F9ull; return (size_t)(h ^ (h >> 32)); } };
    std::unordered_map<K, int, KH> uniq, iteC;
    size_t limit = 20000000; time_t deadline = 0;
    Bdd() { n.push_back({-1, 0, 0}); n.push_back({-1, 1, 1}); }
    uint64_t key(int f) const { return f < 2 ? ~0ull : varKey[n[f].v]; }
    int newVar(uint64_t k) { varKey.push_back(k); return (int)varKey.size() - 1; }
    Node mk(int v, Node lo, Node hi) {
        if (lo == hi) return lo;
        auto r = uniq.emplace(K{v, lo, hi}, (int)n.size());
        if (r.second) { n.push_back({v, lo, hi}); if (n.size() > limit) throw Undecided("BDD size limit"); if (!(n.size() & 0x3fff) && deadline && time(nullptr) > deadline) throw Undecided("time budget"); }
        return r.first->second;
    }
    Node var(int v) { return mk(v, 0, 1); }
    Node ite(Node f, Node g, Node h) {
        if (f == 1) return g; if (f == 0) return h; if (g == h) return g;
        if (g == 1 && h == 0) return f;
        if (g == f) g = 1; if (h == f) h = 0;
        if (g == 1 && h == 0) return f;
        if (g == h) return g;
        K k{f, g, h};
        auto it = iteC.find(k); if (it != iteC.end()) return it->second;
        uint64_t kk = std::min(key(f), std::min(key(g), key(h)));
        int v = -1;
        if (key(f) == kk) v = n[f].v; else if (key(g) == kk) v = n[g].v; else v = n[h].v;
        auto co = [&](Node x, bool hi) { if (x < 2 || n[x].v != v) return x; return hi ? n[x].hi : n[x].lo; };
        Node h1 = ite(co(f, 1), co(g, 1), co(h, 1));
        Node l1 = ite(co(f, 0), co(g, 0), co(h, 0));
        Node r = mk(v, l1, h1);
        iteC[k] = r; return r;
    }
    Node NOT(Node a) { return ite(a, 0, 1); }
    Node AND(Node a, Node b) { return a < b ? ite(a, b, 0) : ite(b, a, 0); }
    Node OR(Node a, Node b) { return a < b ? ite(a, 1, b) : ite(b, 1, a); }
    Node XOR(Node a, Node b) { if (a > b) std::swap(a, b); return ite(a, NOT(b), b); }
    Node XNOR(Node a, Node b) { return NOT(XOR(a, b)); }
    // Coudert-Madre restrict: simplify f using care set c
    std::unordered_map<K, int, KH> resC;
    Node restrict_(Node f, Node c) {
        if (c == 1 || f < 2) return f; if (c == 0) return 0;
        if (f == c) return 1;
        K k{f, c, -7};
        auto it = resC.find(k); if (it != resC.end()) return it->second;
        Node r;
        if (key(c) < key(f)) r = restrict_(f, OR(n[c].lo, n[c].hi));
        else {
            int v = n[f].v;
            Node c0 = c, c1 = c; if (n[c].v == v) { c0 = n[c].lo; c1 = n[c].hi; }
            if (c0 == 0) r = restrict_(n[f].hi, c1);
            else if (c1 == 0) r = restrict_(n[f].lo, c0);
            else r = mk(v, restrict_(n[f].lo, c0), restrict_(n[f].hi, c1));
        }
        resC[k] = r; return r;
    }
    Node cof(Node f, int v, bool b) { // cofactor wrt top-most variables
        if (f < 2) return f;
        if (n[f].v == v) return b ? n[f].hi : n[f].lo;
        return f; // valid because v is <= every top var when used
    }
    std::unordered_map<K, int, KH> compC;
    Node compose(Node f, int v, Node g) { // f[v := g]
        if (f < 2) return f;
        if (key(f) > varKey[v]) return f;
        if (n[f].v == v) return ite(g, n[f].hi, n[f].lo);
        K k{f, v, g};
        auto it = compC.find(k); if (it != compC.end()) return it->second;
        Node h = compose(n[f].hi, v, g), l = compose(n[f].lo, v, g);
        Node r = ite(mk(n[f].v, 0, 1), h, l);
        compC[k] = r; return r;
    }
    void support(Node f, std::set<int>& out, std::set<int>& seen) const {
        std::vector<int> st{f};
        while (!st.empty()) { int x = st.back(); st.pop_back(); if (x < 2 || !seen.insert(x).second) continue;
            out.insert(n[x].v); st.push_back(n[x].lo); st.push_back(n[x].hi); }
    }
};

struct Term {
    std::string op; int w; std::vector<Val> a; std::vector<int64_t> imm; std::string s;
    bool unk = false; int firstVar = -1;
};

typedef std::map<std::vector<Val>, uint64_t> Poly;

struct Dom {
    Bdd b;
    std::vector<Term> terms;
    std::unordered_map<std::string, TermId> termIdx;
    std::vector<int> varTerm, varBit;            // var -> (term, bit)
    std::vector<std::vector<Node>> vals;
    std::unordered_map<std::vector<int>, Val, VecHash> valIdx;
    std::unordered_map<Val, std::shared_ptr<Poly>> polyOf;
    std::set<TermId> nonnull, objectBase;        // base pointers of distinct objects
    uint64_t cls0 = 0, cls1 = 1ull << 60;

    // ---------------------------------------------------------------- values
    Val mk(const std::vector<Node>& bits) {
        auto r = valIdx.emplace(bits, (int)vals.size());
        if (r.second) vals.push_back(bits);
        return r.first->second;
    }
    const std::vector<Node>& bits(Val v) const { return vals[v]; }
    int width(Val v) const { return (int)vals[v].size(); }
    static uint64_t mask(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
    Val cst(uint64_t c, int w) {
        std::vector<Node> x(w); for (int i = 0; i < w; ++i) x[i] = (i < 64 && ((c >> i) & 1)) ? 1 : 0;
        return mk(x);
    }
    bool isConst(Val v) const { for (Node x : vals[v]) if (x > 1) return false; return true; }
    uint64_t constVal(Val v) const { uint64_t r = 0; auto& x = vals[v]; for (size_t i = 0; i < x.size() && i < 64; ++i) if (x[i] == 1) r |= 1ull << i; return r; }
    bool isCst(Val v, uint64_t c) const { return isConst(v) && constVal(v) == (c & mask(width(v))); }
    TermId term(const std::string& op, int w, const std::vector<Val>& a = {}, const std::vector<int64_t>& imm = {}, const std::string& s = "", bool unk = false) {
        std::string k = op; k += '|'; k += std::to_string(w);
        for (Val x : a) { k += ','; k += std::to_string(x); }
        for (int64_t x : imm) { k += ';'; k += std::to_string(x); }
        k += '~'; k += s;
        auto r = termIdx.emplace(k, (int)terms.size());
        if (r.second) { Term t; t.op = op; t.w = w; t.a = a; t.imm = imm; t.s = s; t.unk = unk || op.compare(0, 2, "I:") == 0; terms.push_back(t); }
        return r.first->second;
    }
    Node termBit(TermId t, int i) {
        Term& T = terms[t];
        if (T.firstVar < 0) {
            T.firstVar = (int)varTerm.size();
            for (int j = 0; j < T.w; ++j) {
                uint64_t k = T.w == 1 ? cls0++ : cls1++;
                b.newVar(k); varTerm.push_back(t); varBit.push_back(j);
            }
        }
        return b.var(T.firstVar + i);
    }
    std::unordered_map<TermId, Val> termMemo; // values of POLY terms
    std::unordered_map<TermId, Val> plainMemo;
    Val termVal(TermId t) { auto it = plainMemo.find(t); if (it != plainMemo.end()) return it->second; std::vector<Node> x(terms[t].w); for (int i = 0; i < terms[t].w; ++i) x[i] = termBit(t, i); return plainMemo[t] = mk(x); }
    Val op(const std::string& o, int w, const std::vector<Val>& a, const std::vector<int64_t>& imm = {}, const std::string& s = "") { return termVal(term(o, w, a, imm, s)); }
    Val unknown(const std::string& why, int w, int64_t id) { return termVal(term("UNKNOWN", w, {}, {id}, why, true)); }
    // term whose complete bits the value is (or -1)
    TermId asTerm(Val v) const {
        auto& x = vals[v];
        if (x.empty() || x[0] < 2) return -1;
        const Bdd::N& n0 = b.n[x[0]];
        if (n0.lo != 0 || n0.hi != 1) return -1;
        TermId t = varTerm[n0.v];
        if (terms[t].w != (int)x.size() || varBit[n0.v] != 0) return -1;
        for (size_t i = 1; i < x.size(); ++i) { if (x[i] < 2) return -1; const Bdd::N& n = b.n[x[i]]; if (n.lo != 0 || n.hi != 1 || n.v != n0.v + (int)i) return -1; }
        return t;
    }
    bool isWord(Val v) const {
        for (Node x : vals[v]) { if (x < 2) return false; auto& n = b.n[x]; if (n.lo != 0 || n.hi != 1 || terms[varTerm[n.v]].w == 1) return false; }
        return true;
    }
    bool zextBool(Val v) const { auto& x = vals[v]; if (x.size() < 2 || x[0] < 2) return false; for (size_t i = 1; i < x.size(); ++i) if (x[i] != 0) return false; return true; }
    Val slice(Val v, int lo, int w) { auto& x = vals[v]; return mk(std::vector<Node>(x.begin() + lo, x.begin() + lo + w)); }
    Val concat(const std::vector<Val>& vs) { std::vector<Node> x; for (Val v : vs) x.insert(x.end(), vals[v].begin(), vals[v].end()); return mk(x); }
    Val ite(Node c, Val a, Val bb) {
        if (a == bb || c == 1) return a; if (c == 0) return bb;
        std::vector<Node> x(width(a)); 
        for (size_t i = 0; i < x.size(); ++i) x[i] = b.ite(c, vals[a][i], vals[bb][i]);
        return mk(x);
    }
    Val bit(Node n) { return mk({n}); }
    template<class F> Val bitwise(Val a, Val c, F f) { std::vector<Node> x(width(a)); for (size_t i = 0; i < x.size(); ++i) x[i] = f(vals[a][i], vals[c][i]); return mk(x); }
    // low bits every value of the polynomial shares (all variable parts are multiples of a power of two)
    std::map<TermId, int> alignedTerm;           // caller-provided pointers of known alignment
    Val lowConst(Val a, Val c) {
        if (!isConst(c) || isConst(a) || width(a) > 64) return a; auto it = toPoly(a);
        int w = width(a), k = w; uint64_t c0 = 0;
        for (auto& m : *it) { if (m.first.empty()) { c0 = m.second; continue; } int z = __builtin_ctzll(m.second); for (Val x : m.first) { auto q = alignedTerm.find(asTerm(x)); if (q != alignedTerm.end()) z += q->second; else for (Node n : vals[x]) { if (n != 0) break; ++z; } } k = std::min(k, z); }
        if (!k) return a; std::vector<Node> x = vals[a]; for (int i = 0; i < k && i < w; ++i) x[i] = (c0 >> i) & 1; return mk(x);
    }
    // unsigned bounds from known bits and from sums that cannot wrap around
    std::unordered_map<Val, std::pair<uint64_t, uint64_t>> rangeMemo;
    std::pair<uint64_t, uint64_t> rangeU(Val v) {
        auto it = rangeMemo.find(v); if (it != rangeMemo.end()) return it->second;
        int w = width(v); uint64_t lo = 0, hi = 0; for (int i = 0; i < w && i < 64; ++i) { if (vals[v][i] != 0) hi |= 1ull << i; if (vals[v][i] == 1) lo |= 1ull << i; }
        rangeMemo[v] = {lo, hi};
        auto p = polyOf.find(v); if (p != polyOf.end() && w <= 64) {
            unsigned __int128 L = 0, H = 0, lim = (unsigned __int128)mask(w); bool ok = true;
            for (auto& m : *p->second) { unsigned __int128 l = m.second, h = m.second; for (Val x : m.first) { if (x == v) { ok = false; break; } auto r = rangeU(x); l *= r.first; h *= r.second; if (h > lim) ok = false; if (!ok) break; } if (!ok) break; L += l; H += h; if (H > lim) { ok = false; break; } }
            if (ok) { lo = std::max(lo, (uint64_t)L); hi = std::min(hi, (uint64_t)H); }
        }
        return rangeMemo[v] = {lo, hi};
    }
    // the polynomial, as an integer, stays within [0, 2^w): no wrap-around for any value of its atoms
    bool noWrap(Val v) {
        int w = width(v); if (w > 64) return false; if (isConst(v)) return true; auto p = polyOf.find(v); if (p == polyOf.end()) return false;
        unsigned __int128 H = 0, lim = (unsigned __int128)mask(w);
        for (auto& m : *p->second) { unsigned __int128 h = m.second; for (Val x : m.first) { h *= (x == v ? bitsRange(x) : rangeU(x)).second; if (h > lim) return false; } H += h; if (H > lim) return false; }
        return true;
    }
    std::pair<uint64_t, uint64_t> bitsRange(Val v) { int w = width(v); uint64_t lo = 0, hi = 0; for (int i = 0; i < w && i < 64; ++i) { if (vals[v][i] != 0) hi |= 1ull << i; if (vals[v][i] == 1) lo |= 1ull << i; } return {lo, hi}; }
    // -1: a < c always, 1: a >= c always, 0: open; both non-wrapping sums
    int orderU(Val a, Val c) {
        if (!noWrap(a) || !noWrap(c)) return 0; std::map<std::vector<Val>, __int128> d;
        for (auto& m : *toPoly(a)) d[m.first] += (__int128)m.second; for (auto& m : *toPoly(c)) d[m.first] -= (__int128)m.second;
        __int128 lo = 0, hi = 0; for (auto& m : d) { if (!m.second) continue; __int128 l = 1, h = 1; for (Val x : m.first) { auto r = rangeU(x); l *= (__int128)r.first; h *= (__int128)r.second; if (h > ((__int128)1 << 62)) return 0; } __int128 k = m.second; if (k > ((__int128)1 << 62) || k < -((__int128)1 << 62)) return 0; __int128 x = k * l, y = k * h; lo += std::min(x, y); hi += std::max(x, y); }
        if (hi < 0) return -1; if (lo >= 0) return 1; return 0;
    }
    // all variable parts are multiples of c, no wrap-around: quotient and remainder are exact
    bool splitDiv(Val a, uint64_t c, Poly& q, uint64_t& r) {
        if (!c || isConst(a) || !noWrap(a)) return false; int w = width(a); q.clear(); r = 0;
        for (auto& m : *toPoly(a)) { if (m.first.empty()) { r = m.second % c; if (m.second / c) q[m.first] = m.second / c; continue; } if (m.second % c) return false; q[m.first] = m.second / c; }
        (void)w; return true;
    }
    Val AND(Val a, Val c) { if (isConst(a) && !isConst(c)) std::swap(a, c);
        if (isConst(c) && !isConst(a) && width(a) <= 64 && topPred(a) < 0 && polyOf.count(a) && toPoly(a)->size() > 1) { // clearing low bits that are known anyway
            int w = width(a); uint64_t m = constVal(c), low = ~m & mask(w);
            if (low && (low & (low + 1)) == 0) { Val t = lowConst(a, c); uint64_t c0 = 0; bool known = true; for (int i = 0; i < w && ((low >> i) & 1); ++i) { if (vals[t][i] > 1) known = false; else c0 |= (uint64_t)vals[t][i] << i; } if (known) { Poly k; if (c0) k[{}] = c0; return fromPoly(padd(*toPoly(a), k, ~0ull, w), w); } } }
        a = lowConst(a, c); c = lowConst(c, a); return bitwise(a, c, [&](Node p, Node q) { return b.AND(p, q); }); }
    Val OR(Val a, Val c) { return bitwise(a, c, [&](Node p, Node q) { return b.OR(p, q); }); }
    Val XOR(Val a, Val c) { return bitwise(a, c, [&](Node p, Node q) { return b.XOR(p, q); }); }
    bool wide(Val a, int w, bool sgn, Val& out) { // extension of a sum that does not wrap
        int v = width(a); if (v < 16 || w > 64 || w <= v || isConst(a) || topPred(a) >= 0) return false; auto p = polyOf.find(a); if (p == polyOf.end() || p->second->size() < 2 || !noWrap(a) || (sgn && rangeU(a).second > (mask(v) >> 1))) return false;
        Poly q; for (auto& m : *p->second) { std::vector<Val> k; for (Val x : m.first) { if (x == a) return false; k.push_back(zext(x, w)); } std::sort(k.begin(), k.end()); q[k] = (q[k] + m.second) & mask(w); }
        out = fromPoly(q, w); return true;
    }
    Val zext(Val a, int w) { { Val o; if (wide(a, w, false, o)) return o; } std::vector<Node> x = vals[a]; x.resize(w, 0); return mk(x); }
    Val sext(Val a, int w) { { Val o; if (wide(a, w, true, o)) return o; } std::vector<Node> x = vals[a]; x.resize(w, x.back()); return mk(x); }
    // ------------------------------------------------------------ case split
    int topPred(Val v) const { // variable index of smallest class-0 var, or -1
        if (width(v) == 1 || zextBool(v)) return -1;
        int best = -1; uint64_t bk = ~0ull;
        for (Node x : vals[v]) if (x > 1) { uint64_t k = b.varKey[b.n[x].v]; if (k < (1ull << 60) && k < bk) { bk = k; best = b.n[x].v; } }
        return best;
    }
    int liftBudget = 0;
    typedef std::unordered_map<std::vector<int>, Val, VecHash> LiftMemo;
    Val lift(const std::vector<Val>& a, const std::function<Val(const std::vector<Val>&)>& f) { LiftMemo m; return lift(a, f, m); }
    Val lift(const std::vector<Val>& a, const std::function<Val(const std::vector<Val>&)>& f, LiftMemo& memo) {
        int best = -1; uint64_t bk = ~0ull;
        for (Val v : a) { int t = topPred(v); if (t >= 0 && b.varKey[t] < bk) { bk = b.varKey[t]; best = t; } }
        if (best < 0) return f(a);
        { auto it = memo.find(a); if (it != memo.end()) return it->second; }
        if (++liftBudget > 400000) throw Undecided("case-split limit");
        std::vector<Val> hi(a.size()), lo(a.size());
        for (size_t i = 0; i < a.size(); ++i) {
            if (width(a[i]) == 1) { hi[i] = cof1(a[i], best, true); lo[i] = cof1(a[i], best, false); continue; }
            if (zextBool(a[i])) { int w = width(a[i]); Node z = vals[a[i]][0];
                hi[i] = zext(bit(b.compose(z, best, 1)), w); lo[i] = zext(bit(b.compose(z, best, 0)), w); continue; }
            std::vector<Node> h = vals[a[i]], l = h;
            for (auto& x : h) x = b.cof(x, best, true);
            for (auto& x : l) x = b.cof(x, best, false);
            hi[i] = mk(h); lo[i] = mk(l);
        }
        Val vh = lift(hi, f, memo), vl = lift(lo, f, memo);
        Val r = ite(b.var(best), vh, vl); memo[a] = r; return r;
    }
    Val cof1(Val v, int var, bool x) { return bit(b.compose(vals[v][0], var, x ? 1 : 0)); }
    // ------------------------------------------------------------ polynomials
    std::shared_ptr<Poly> toPoly(Val v) {
        auto it = polyOf.find(v); if (it != polyOf.end()) return it->second;
        auto p = std::make_shared<Poly>();
        int w = width(v);
        if (isConst(v)) { uint64_t c = constVal(v); if (c) (*p)[{}] = c; }
        else {
            // disjoint constant part of a shifted word is left as an atom
            (*p)[{v}] = 1;
        }
        (void)w;
        polyOf[v] = p; return p;
    }
    Poly padd(const Poly& x, const Poly& y, uint64_t c, int w) {
        Poly r = x; for (auto& m : y) { uint64_t& e = r[m.first]; e = (e + c * m.second) & mask(w); if (!e) r.erase(m.first); } return r;
    }
    Poly pmul(const Poly& x, const Poly& y, int w) {
        Poly r;
        for (auto& m : x) for (auto& q : y) {
            std::vector<Val> k = m.first; k.insert(k.end(), q.first.begin(), q.first.end()); std::sort(k.begin(), k.end());
            if (k.size() > 12 || r.size() > 4000) throw Undecided("polynomial too large");
            uint64_t& e = r[k]; e = (e + m.second * q.second) & mask(w); if (!e) r.erase(k);
        }
        return r;
    }
    std::map<std::pair<Poly, int>, Val> boolPoly;
    Val fromPoly(const Poly& p, int w) {
        if (p.empty()) return cst(0, w);
        if (p.size() == 1) {
            auto& m = *p.begin();
            if (m.first.empty()) return cst(m.second, w);
            if (m.first.size() == 1 && m.second == 1) return m.first[0];
            if (m.first.size() == 1 && (m.second & (m.second - 1)) == 0) {
                int k = __builtin_ctzll(m.second);
                std::vector<Node> x(w, 0); for (int i = k; i < w; ++i) x[i] = vals[m.first[0]][i - k];
                Val v = mk(x); if (!polyOf.count(v)) polyOf[v] = std::make_shared<Poly>(p); return v;
            }
        }
        if (p.size() == 1 && p.begin()->first.size() > 1 && p.begin()->second && __builtin_ctzll(p.begin()->second) >= 32) { // a product moved to the upper half of a lane
            int k = __builtin_ctzll(p.begin()->second); Poly q; q[p.begin()->first] = p.begin()->second >> k; Val base = fromPoly(q, w);
            std::vector<Node> x(w, 0); for (int i = k; i < w; ++i) x[i] = vals[base][i - k];
            Val v = mk(x); if (!polyOf.count(v)) polyOf[v] = std::make_shared<Poly>(p); return v;
        }
        // few boolean atoms: expand into a case split so that c ? x+1 : x and x + c coincide
        int nb = 0; Val firstB = -1;
        std::set<Val> bools;
        for (auto& m : p) for (Val a : m.first) if (zextBool(a)) { bools.insert(a); if (firstB < 0) firstB = a; }
        nb = (int)bools.size();
        if (nb >= 1 && nb <= 40) {
            auto memo = boolPoly.find({p, w}); if (memo != boolPoly.end()) return memo->second;
            if (boolPoly.size() > 200000) throw Undecided("boolean sum too large");
            Poly p0, p1;
            for (auto& m : p) {
                std::vector<Val> k; int c = 0; for (Val a : m.first) if (a == firstB) ++c; else k.push_back(a);
                uint64_t& e1 = p1[k]; e1 = (e1 + m.second) & mask(w); if (!e1) p1.erase(k);
                if (!c) { uint64_t& e0 = p0[k]; e0 = (e0 + m.second) & mask(w); if (!e0) p0.erase(k); }
            }
            Val res = ite(vals[firstB][0], fromPoly(p1, w), fromPoly(p0, w)); boolPoly[{p, w}] = res; return res;
        }
        std::vector<Val> a; std::vector<int64_t> imm;
        for (auto& m : p) { imm.push_back((int64_t)m.second); imm.push_back((int64_t)m.first.size()); for (Val x : m.first) a.push_back(x); }
        TermId t = term("POLY", w, a, imm);
        { auto it = termMemo.find(t); if (it != termMemo.end()) return it->second; }
        Val v;
        if (w == 64) {
            // low half is the same polynomial modulo 2^32
            Poly q; bool big = false;
            for (auto& m : p) {
                std::vector<Val> k; uint64_t c = m.second & mask(32);
                uint64_t cm = 1;
                for (Val x : m.first) { Val s = slice(x, 0, 32); if (isConst(s)) cm = (cm * constVal(s)) & mask(32); else k.push_back(s); }
                c = (c * cm) & mask(32);
                if (!c) continue;
                Poly mono; mono[{}] = c;
                for (Val s : k) mono = pmul(mono, *toPoly(s), 32);
                q = padd(q, mono, 1, 32);
            }
            (void)big;
            Val lo = fromPoly(q, 32);
            std::vector<Node> x = vals[lo]; for (int i = 32; i < 64; ++i) x.push_back(termBit(t, i));
            v = mk(x);
        } else v = termVal(t);
        termMemo[t] = v;
        if (!polyOf.count(v)) polyOf[v] = std::make_shared<Poly>(p);
        return v;
    }
    bool predOnly(Val v) { // all bits depend on predicates only
        for (Node x : vals[v]) { if (x < 2) continue; std::set<int> sup, seen; b.support(x, sup, seen); for (int q : sup) if (b.varKey[q] >= (1ull << 60)) return false; } return true; }
    bool disjointBits(Val a, Val c) { for (int i = 0; i < width(a); ++i) if (vals[a][i] != 0 && vals[c][i] != 0) return false; return true; }
    Val add(Val a, Val c) { if (width(a) > 1 && !isConst(a) && !isConst(c) && disjointBits(a, c) && predOnly(a) && predOnly(c)) return OR(a, c);
        return lift({a, c}, [&](const std::vector<Val>& x) { int w = width(x[0]); if (w == 1) return XOR(x[0], x[1]); if (w > 64) return op("BIGADD", w, {x[0], x[1]}); return fromPoly(padd(*toPoly(x[0]), *toPoly(x[1]), 1, w), w); }); }
    Val sub(Val a, Val c) { return lift({a, c}, [&](const std::vector<Val>& x) { int w = width(x[0]); if (w == 1) return XOR(x[0], x[1]); if (w > 64) return op("BIGSUB", w, {x[0], x[1]}); return fromPoly(padd(*toPoly(x[0]), *toPoly(x[1]), ~0ull, w), w); }); }
    Val mul(Val a, Val c) { return lift({a, c}, [&](const std::vector<Val>& x) { int w = width(x[0]); if (w == 1) return AND(x[0], x[1]); if (w > 64) return op("BIGMUL", w, {x[0], x[1]}); return fromPoly(pmul(*toPoly(x[0]), *toPoly(x[1]), w), w); }); }
    Val shlC(Val a, int k) { int w = width(a); if (k >= w) return cst(0, w); if (k == 0) return a; if (w <= 64 && topPred(a) < 0) { Poly m; m[{}] = 1ull << k; return fromPoly(pmul(*toPoly(a), m, w), w); }
        std::vector<Node> x(w, 0); for (int i = k; i < w; ++i) x[i] = vals[a][i - k]; return mk(x); }
    Val lshrC(Val a, int k) { int w = width(a); std::vector<Node> x(w, 0); for (int i = 0; i + k < w; ++i) x[i] = vals[a][i + k]; 
        return mk(x); }
    Val ashrC(Val a, int k) { int w = width(a); std::vector<Node> x(w, vals[a][w - 1]); for (int i = 0; i + k < w; ++i) x[i] = vals[a][i + k]; return mk(x); }
    // ------------------------------------------------------------- predicates
    Node eqC(Val a, uint64_t c) { // bit-level definition
        Node r = 1; int w = width(a); for (int i = w - 1; i >= 0; --i) { Node x = vals[a][i]; bool cb = i < 64 && ((c >> i) & 1); r = b.AND(r, cb ? x : b.NOT(x)); } return r;
    }
    Node ultCbits(Val a, uint64_t c, bool sgn) {
        int w = width(a); Node lt = 0; // process from LSB up
        for (int i = 0; i < w; ++i) {
            Node x = vals[a][i]; bool cb = i < 64 && ((c >> i) & 1);
            if (sgn && i == w - 1) { x = b.NOT(x); cb = !cb; }
            lt = cb ? b.OR(b.NOT(x), lt) : b.AND(b.NOT(x), lt);
        }
        return lt;
    }
    TermId baseOf(Val v) { // object base pointer contained in an address polynomial
        auto p = toPoly(v); TermId r = -1;
        for (auto& m : *p) if (m.first.size() == 1 && m.second == 1) { TermId t = asTerm(m.first[0]); if (t >= 0 && objectBase.count(t)) { if (r >= 0) return -1; r = t; } }
        return r;
    }
    Node pred(const std::function<Node(Val, Val)>& f, Val a, Val c) {
        Val r = lift({a, c}, [&](const std::vector<Val>& x) { return bit(f(x[0], x[1])); });
        return vals[r][0];
    }
    Node predAtom(const std::string& o, const std::vector<Val>& a, const std::vector<int64_t>& imm = {}) { return termBit(term(o, 1, a, imm), 0); }
    Node eq(Val a, Val c) { if (predOnly(a) && predOnly(c)) { Node r = 1; for (int i = 0; i < width(a); ++i) r = b.AND(r, b.XNOR(vals[a][i], vals[c][i])); return r; } return pred([&](Val x, Val y) { return eq0(x, y); }, a, c); }
    Node eq0(Val a, Val c) {
        if (a == c) return 1;
        int w = width(a);
        if (isConst(a) && isConst(c)) return vals[a] == vals[c];
        for (int i = 0; i < w; ++i) if (vals[a][i] < 2 && vals[c][i] < 2 && vals[a][i] != vals[c][i]) return 0;
        if (isConst(a)) std::swap(a, c);
        if (w > 64 || (isConst(c) && !isWord(a))) { Node r = 1; for (int i = w - 1; i >= 0; --i) r = b.AND(r, b.XNOR(vals[a][i], vals[c][i])); return r; }
        Poly d = padd(*toPoly(a), *toPoly(c), ~0ull, w);
        if (d.empty()) return 1;
        if (d.size() == 1 && d.begin()->first.empty()) return 0;
        uint64_t k = 0; { auto it = d.find({}); if (it != d.end()) { k = it->second; d.erase(it); } }
        if (w == 64) {
            if (isConst(c) && constVal(c) == 0) { TermId t = asTerm(a); if (t >= 0 && nonnull.count(t)) return 0; TermId bo = baseOf(a); if (bo >= 0 && nonnull.count(bo)) return 0; }
            TermId ba = baseOf(a), bc = baseOf(c);
            if (ba >= 0 && bc >= 0 && ba != bc) return 0;
        }
        // canonical sign: leading coefficient below half
        bool neg = d.begin()->second > (mask(w) >> 1);
        if (neg) { Poly e; for (auto& m : d) e[m.first] = (0 - m.second) & mask(w); d = e; k = (0 - k) & mask(w); }
        if (w == 64) { // sizes and addresses do not overflow: 8*n == 8*k means n == k
            uint64_t g = 0; for (auto& m : d) { int64_t c1 = (int64_t)m.second; uint64_t u = c1 < 0 ? 0 - (uint64_t)c1 : (uint64_t)c1; while (u) { uint64_t t = g % u; g = u; u = t; } }
            if (g > 1) {
                if ((int64_t)k % (int64_t)g) return 0;
                Poly e; for (auto& m : d) e[m.first] = (uint64_t)((int64_t)m.second / (int64_t)g); d = e; k = (uint64_t)((int64_t)k / (int64_t)g);
            }
        }
        // d + k == 0  <=>  d == -k
        Val dv = fromPoly(d, w); uint64_t cc = (0 - k) & mask(w);
        if (!isWord(dv)) { return eqC(dv, cc); }
        return predAtom("EQC", {dv}, {(int64_t)cc});
    }
    Node ult(Val a, Val c) { if (width(a) <= 64 && predOnly(a) && isConst(c)) return ultCbits(a, constVal(c), false); return pred([&](Val x, Val y) { return ult0(x, y); }, a, c); }
    Node ltC(Val a, uint64_t c, bool sgn) {
        int w = width(a);
        if (!sgn && c == 0) return 0;
        if (sgn && c == (1ull << (w - 1))) return 0;
        { auto r = rangeU(a); if (!sgn && r.second < c) return 1; if (!sgn && r.first >= c) return 0;
          if (sgn && w <= 64 && r.second <= (mask(w) >> 1)) { if (c >> (w - 1)) return 0; if (r.second < c) return 1; if (r.first >= c) return 0; } }
        if (!isWord(a)) return ultCbits(a, c, sgn);
        if (!sgn && c == 1) return eq0(a, cst(0, w));
        if (!sgn && c == mask(w)) return b.NOT(eq0(a, cst(c, w)));
        { auto pp = toPoly(a); auto it = pp->find({}); // x + k < c is a statement about x: x lies in the cyclic interval [first - k, c - k)
          if (it != pp->end() && pp->size() > 1) { uint64_t k = it->second; Poly q = *pp; q.erase(std::vector<Val>{}); Val x = fromPoly(q, w);
            if (isWord(x)) { uint64_t first = sgn ? 1ull << (w - 1) : 0, lo = (first - k) & mask(w), hi = (c - k) & mask(w);
              auto below = [&](uint64_t t) -> Node { return t == first ? 0 : ltC(x, t, sgn); };
              uint64_t l2 = (lo - first) & mask(w), h2 = (hi - first) & mask(w); // distance from the smallest value
              if (l2 < h2) return b.AND(b.NOT(below(lo)), below(hi));
              if (h2 == 0) return b.NOT(below(lo));
              return b.OR(b.NOT(below(lo)), below(hi)); } } }
        return predAtom(sgn ? "SLTC" : "ULTC", {a}, {(int64_t)c});
    }
    Node ult0(Val a, Val c) {
        if (a == c) return 0; int w = width(a);
        if (w == 1) return b.AND(b.NOT(vals[a][0]), vals[c][0]);
        if (w > 64) throw Undecided("wide compare");
        if (isConst(a) && isConst(c)) return constVal(a) < constVal(c);
        if (isConst(c)) return ltC(a, constVal(c), false);
        if (isConst(a)) { uint64_t k = constVal(a); if (k == mask(w)) return 0; return b.NOT(ltC(c, k + 1, false)); }
        { int o = orderU(a, c); if (o) return o < 0; }
        return predAtom("ULT", {a, c});
    }
    Node slt(Val a, Val c) { return pred([&](Val x, Val y) { return slt0(x, y); }, a, c); }
    Node slt0(Val a, Val c) {
        if (a == c) return 0; int w = width(a);
        if (w == 1) return b.AND(vals[a][0], b.NOT(vals[c][0]));
        if (w > 64) throw Undecided("wide compare");
        if (vals[a][w - 1] == 0 && vals[c][w - 1] == 0) return ult0(a, c);
        auto sx = [&](uint64_t x) { return (int64_t)(x << (64 - w)) >> (64 - w); };
        if (isConst(a) && isConst(c)) return sx(constVal(a)) < sx(constVal(c));
        if (isConst(c)) return ltC(a, constVal(c), true);
        if (isConst(a)) { uint64_t k = constVal(a); if (k == (mask(w) >> 1)) return 0; return b.NOT(ltC(c, (k + 1) & mask(w), true)); }
        if (rangeU(a).second <= (mask(w) >> 1) && rangeU(c).second <= (mask(w) >> 1)) { int o = orderU(a, c); if (o) return o < 0; }
        return predAtom("SLT", {a, c});
    }
    // definitional expansion of threshold atoms inside a boolean function
    Node expand(Node f) {
        for (int round = 0; round < 64; ++round) {
            std::set<int> sup, seen; b.support(f, sup, seen);
            int v = -1; for (int x : sup) { const std::string& o = terms[varTerm[x]].op; if (o == "ULTC" || o == "SLTC" || o == "EQC") { v = x; break; } }
            if (v < 0) return f;
            const Term T = terms[varTerm[v]];
            Node d = T.op == "EQC" ? eqC(T.a[0], (uint64_t)T.imm[0]) : ultCbits(T.a[0], (uint64_t)T.imm[0], T.op == "SLTC");
            f = b.compose(f, v, d);
        }
        return f;
    }
    // ordering axioms between symbolic comparison atoms occurring in f
    Node axioms(Node f) {
        std::set<int> sup, seen; b.support(f, sup, seen);
        std::vector<int> lt; std::map<Val, std::set<int64_t>> th;
        for (int x : sup) { auto& T = terms[varTerm[x]]; if (T.op == "ULT") lt.push_back(x); if (T.op == "ULTC") th[T.a[0]].insert(T.imm[0]); }
        Node ax = 1;
        auto L = [&](Val p, Val q) { return predAtom("ULT", {p, q}); };
        std::set<Val> vs; for (int x : lt) { vs.insert(terms[varTerm[x]].a[0]); vs.insert(terms[varTerm[x]].a[1]); }
        if (vs.size() > 8) return ax;
        for (Val p : vs) for (Val q : vs) if (p != q) {
            ax = b.AND(ax, b.NOT(b.AND(L(p, q), L(q, p))));
            Node e = p < q ? eq0(p, q) : eq0(q, p);
            ax = b.AND(ax, b.XNOR(e, b.AND(b.NOT(L(p, q)), b.NOT(L(q, p)))));
            for (Val r : vs) if (r != p && r != q) ax = b.AND(ax, b.OR(b.NOT(b.AND(L(p, q), L(q, r))), L(p, r)));
            std::set<int64_t> cs = th[p]; for (int64_t c : th[q]) cs.insert(c);
            for (int64_t c : cs) { // p<q & q<c -> p<c ; q<=p & p<c -> q<c
                ax = b.AND(ax, b.OR(b.NOT(b.AND(L(p, q), ltC(q, c, false))), ltC(p, c, false)));
                ax = b.AND(ax, b.OR(b.NOT(b.AND(b.NOT(L(p, q)), ltC(p, c, false))), ltC(q, c, false)));
            }
        }
        return ax;
    }
    // Walks the decision diagram keeping unsigned/signed intervals and an order relation per
    // value; a path whose literals contradict each other is dropped.
    // returns 0: no consistent path, 1: a consistent path exists, -1: budget exhausted
    struct Theory {
        std::map<Val, std::pair<uint64_t, uint64_t>> u; std::map<Val, std::pair<int64_t, int64_t>> s;
        std::map<Val, std::set<uint64_t>> ne; std::map<std::pair<Val, Val>, int> rel; // 1: <=, 2: <
        std::set<std::pair<Val, Val>> neq;
    };
    int64_t sxw(uint64_t x, int w) const { return (int64_t)(x << (64 - w)) >> (64 - w); }
    bool thU(Theory& t, Val v, uint64_t lo, uint64_t hi) { auto it = t.u.find(v); if (it == t.u.end()) { it = t.u.emplace(v, rangeU(v)).first; }
        it->second.first = std::max(it->second.first, lo); it->second.second = std::min(it->second.second, hi); 
        auto e = t.ne.find(v); if (e != t.ne.end()) { while (e->second.count(it->second.first)) { if (it->second.first == mask(width(v))) return false; ++it->second.first; } while (it->second.second && e->second.count(it->second.second)) --it->second.second; }
        return it->second.first <= it->second.second; }
    bool thS(Theory& t, Val v, int64_t lo, int64_t hi) { int w = width(v); auto it = t.s.find(v); if (it == t.s.end()) { int64_t m = (int64_t)(mask(w) >> 1); it = t.s.emplace(v, std::make_pair(-m - 1, m)).first; }
        it->second.first = std::max(it->second.first, lo); it->second.second = std::min(it->second.second, hi); if (it->second.first > it->second.second) return false;
        if (it->second.first >= 0) return thU(t, v, (uint64_t)it->second.first, (uint64_t)it->second.second);
        if (it->second.second < 0) return thU(t, v, (uint64_t)it->second.first & mask(w), (uint64_t)it->second.second & mask(w));
        return true; }
    bool thRel(Theory& t, Val p, Val q, int r) { // p <= q (1) or p < q (2)
        if (p == q) return r == 1;
        auto& x = t.rel[{p, q}]; if (x >= r) return true; x = r;
        std::set<Val> vs; for (auto& e : t.rel) { vs.insert(e.first.first); vs.insert(e.first.second); }
        for (bool ch = true; ch;) { ch = false;
            std::vector<std::pair<std::pair<Val, Val>, int>> L(t.rel.begin(), t.rel.end());
            for (auto& a : L) for (auto& c : L) if (a.second && c.second && a.first.second == c.first.first) { int k = std::max(a.second, c.second); if (a.first.first == c.first.second) { if (k == 2) return false; continue; } auto& y = t.rel[{a.first.first, c.first.second}]; if (y < k) { y = k; ch = true; } } }
        return thProp(t); }
    bool thProp(Theory& t) {
        for (int round = 0; round < 4; ++round) for (auto& e : t.rel) if (e.second) { Val p = e.first.first, q = e.first.second; int st = e.second == 2;
            if (t.neq.count({std::min(p, q), std::max(p, q)})) { auto r = t.rel.find({q, p}); if (r != t.rel.end() && r->second) return false; }
            auto ip = t.u.find(p), iq = t.u.find(q); uint64_t hq = iq == t.u.end() ? mask(width(q)) : iq->second.second, lp = ip == t.u.end() ? 0 : ip->second.first;
            if (st && hq == 0) return false; if (st && lp == mask(width(p))) return false;
            if (!thU(t, p, 0, hq - st) || !thU(t, q, lp + st, mask(width(q)))) return false; }
        return true; }
    bool thAssume(Theory& t, int var, bool val) {
        const Term& T = terms[varTerm[var]];
        if (T.op == "ULTC") { int w = width(T.a[0]); (void)w; uint64_t c = (uint64_t)T.imm[0] & mask(width(T.a[0])); bool ok = val ? thU(t, T.a[0], 0, c - 1) : thU(t, T.a[0], c, mask(width(T.a[0]))); return ok && thProp(t); }
        if (T.op == "SLTC") { int w = width(T.a[0]); int64_t c = sxw((uint64_t)T.imm[0], w), m = (int64_t)(mask(w) >> 1); return (val ? thS(t, T.a[0], -m - 1, c - 1) : thS(t, T.a[0], c, m)) && thProp(t); }
        if (T.op == "EQC") { Val v = T.a[0]; int w = width(v); uint64_t c = (uint64_t)T.imm[0] & mask(w);
            auto p = toPoly(v); if (c == 0 && p->size() == 2) { auto i = p->begin(), j = std::next(i); if (!i->first.empty() && !j->first.empty() && ((i->second == 1 && j->second == mask(w)) || (j->second == 1 && i->second == mask(w)))) {
                Poly a, d; a[i->first] = 1; d[j->first] = 1; Val x = fromPoly(a, w), y = fromPoly(d, w);
                if (val) return thRel(t, x, y, 1) && thRel(t, y, x, 1); t.neq.insert({std::min(x, y), std::max(x, y)}); return thProp(t); } }
            if (val) return thU(t, v, c, c) && thS(t, v, sxw(c, w), sxw(c, w)) && thProp(t);
            t.ne[v].insert(c); return thU(t, v, 0, mask(w)) && thProp(t); }
        if (T.op == "ULT") return val ? thRel(t, T.a[0], T.a[1], 2) : thRel(t, T.a[1], T.a[0], 1);
        return true;
    }
    int satWalk(Node f, const Theory& t, long& budget) {
        if (f == 0) return 0; if (f == 1) return 1;
        if (--budget < 0) return -1;
        int v = b.n[f].v;
        for (int val = 1; val >= 0; --val) { Node g = val ? b.n[f].hi : b.n[f].lo; if (g == 0) continue; Theory t2 = t; if (!thAssume(t2, v, val)) continue; int r = satWalk(g, t2, budget); if (r) return r; }
        return 0;
    }
    bool valid0(Node diff) { // true if diff is unsatisfiable modulo theory
        if (diff == 0) return true;
        long budget = 200000; Theory t; int r = satWalk(diff, t, budget);
        if (r == 0) return true;
        { // comparisons only: the walk is exact enough
          std::set<int> sup, seen; b.support(diff, sup, seen); bool bits = false; for (int x : sup) { auto& o = terms[varTerm[x]].op; if (o != "ULTC" && o != "SLTC" && o != "ULT" && o != "EQC") bits = true; }
          if (r == 1 && !bits) { bool words = true; std::set<Val> vs; for (int x : sup) for (Val a : terms[varTerm[x]].a) { vs.insert(a); if (asTerm(a) < 0) words = false; } if (words) return false; } }
        Node ax = axioms(diff);
        diff = b.AND(diff, ax);
        if (diff == 0) return true;
        Node e = expand(diff);
        return e == 0;
    }
    bool hasUnk(Val v, std::set<Val>& seen) const {
        if (!seen.insert(v).second) return false;
        std::set<int> sup, s2; for (Node x : vals[v]) b.support(x, sup, s2);
        std::set<TermId> ts; for (int x : sup) ts.insert(varTerm[x]);
        for (TermId t : ts) { if (terms[t].unk) return true; for (Val a : terms[t].a) if (hasUnk(a, seen)) return true; }
        return false;
    }
    // ----------------------------------------------------------------- output
    std::string show(Val v, int depth = 6) {
        int w = width(v);
        if (isConst(v)) { char buf[64]; if (w <= 64) { snprintf(buf, sizeof buf, "%lld", (long long)((int64_t)(constVal(v) << (64 - w)) >> (64 - w))); 
            if (w == 32) { uint32_t u = (uint32_t)constVal(v); float f; memcpy(&f, &u, 4); if (u > 0x10000 && std::isfinite(f)) { char b2[64]; snprintf(b2, sizeof b2, "%s{%gf}", buf, f); return b2; } }
            return buf; } return "const" + std::to_string(w); }
        if (depth <= 0) return "...";
        TermId t = asTerm(v);
        if (t >= 0) return showTerm(t, depth);
        auto it = polyOf.find(v);
        if (it != polyOf.end() && !(it->second->size() == 1 && it->second->begin()->first == std::vector<Val>{v})) return showPoly(*it->second, w, depth);
        int p = topPred(v);
        if (p >= 0) {
            std::vector<Node> h = vals[v], l = h; for (auto& x : h) x = b.cof(x, p, true); for (auto& x : l) x = b.cof(x, p, false);
            return "(" + showTerm(varTerm[p], depth - 1) + " ? " + show(mk(h), depth - 1) + " : " + show(mk(l), depth - 1) + ")";
        }
        if (w == 1) return showBool(vals[v][0], depth);
        // slices
        std::string s = "{"; int i = 0; int parts = 0;
        while (i < w && parts < 6) {
            Node x = vals[v][i];
            if (x < 2) { int j = i; while (j < w && vals[v][j] < 2) ++j; uint64_t c = 0; for (int q = i; q < j && q < i + 64; ++q) if (vals[v][q]) c |= 1ull << (q - i); s += std::to_string(c) + ":" + std::to_string(j - i) + " "; i = j; }
            else { auto& n = b.n[x]; if (n.lo == 0 && n.hi == 1) { int j = i + 1; while (j < w && vals[v][j] > 1 && b.n[vals[v][j]].lo == 0 && b.n[vals[v][j]].hi == 1 && b.n[vals[v][j]].v == n.v + (j - i) && varTerm[n.v + (j - i)] == varTerm[n.v]) ++j;
                    s += showTerm(varTerm[n.v], depth - 1) + "[" + std::to_string(varBit[n.v]) + "+" + std::to_string(j - i) + "] "; i = j; }
                else { s += "<" + showBool(x, depth - 1) + "> "; ++i; } }
            ++parts;
        }
        if (i < w) s += "..";
        return s + "}";
    }
    std::string showBool(Node x, int depth) {
        if (x == 0) return "false"; if (x == 1) return "true"; if (depth <= 0) return "..";
        auto& n = b.n[x]; std::string c = showTerm(varTerm[n.v], depth - 1); if (terms[varTerm[n.v]].w > 1) c += "#" + std::to_string(varBit[n.v]);
        if (n.lo == 0 && n.hi == 1) return c; if (n.lo == 1 && n.hi == 0) return "!" + c;
        int lo = n.lo, hi = n.hi;
        return "(" + c + "?" + showBool(hi, depth - 1) + ":" + showBool(lo, depth - 1) + ")";
    }
    std::string showPoly(const Poly& p, int w, int depth) {
        std::string s = "("; bool first = true; int cnt = 0;
        for (auto& m : p) { if (++cnt > 12) { s += "+.."; break; } long long c = (int64_t)(m.second << (64 - w)) >> (64 - w); if (!first) s += "+"; first = false; s += std::to_string(c); for (Val x : m.first) { s += "*"; s += show(x, depth - 1); } }
        return s + ")";
    }
    std::string showTerm(TermId t, int depth) {
        const Term T = terms[t];
        if (T.op == "POLY") { std::string s = "("; size_t k = 0, q = 0; while (q < T.imm.size()) { if (q) s += "+"; s += std::to_string(T.imm[q]); int n = (int)T.imm[q + 1]; q += 2; while (n-- > 0) { s += "*" + show(T.a[k++], depth - 1); } } return s + ")"; }
        std::string s = T.op; if (!T.s.empty()) s += ":" + T.s;
        if (T.a.empty() && T.imm.empty()) return s;
        if (depth <= 0) return s + "(..)";
        s += "("; bool f = true; for (Val x : T.a) { if (!f) s += ","; f = false; s += show(x, depth - 1); }
        for (int64_t x : T.imm) { if (!f) s += ","; f = false; s += "#" + std::to_string(x); }
        return s + ")";
    }
};

} // namespace vfx

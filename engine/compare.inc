// comparison of effect summaries
static std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static void dumpEvents(const std::vector<Event>& v, int ind) { for (auto& e : v) { std::cerr << std::string(ind * 2, ' ') << (e.isLoop ? "loop k=" + D.show(e.k) + " trip " + D.show(e.trip) : e.name); std::cerr << "("; for (Val a : e.args) std::cerr << D.show(a) << ", "; std::cerr << ") if " << D.showBool(e.cond, 6) << "\n"; if (e.isLoop) dumpEvents(e.body, ind + 1); } }
struct Report {
    std::string name, status, detail, where; size_t insts = 0, loops = 0, obligations = 0; std::set<std::string> files; std::map<std::string, int> feat; double relerr = -1;
    std::string json() const {
        std::ostringstream o; o << "{\"pair\":\"" << jesc(name) << "\",\"status\":\"" << status << "\",\"where\":\"" << jesc(where) << "\",\"detail\":\"" << jesc(detail) << "\",\"insts\":" << insts << ",\"loops\":" << loops << ",\"obligations\":" << obligations;
        if (relerr >= 0) o << ",\"relerr\":" << relerr;
        o << ",\"files\":["; bool f = true; for (auto& x : files) { o << (f ? "" : ",") << "\"" << jesc(x) << "\""; f = false; } o << "],\"feat\":{"; f = true; for (auto& x : feat) { o << (f ? "" : ",") << "\"" << jesc(x.first) << "\":" << x.second; f = false; } o << "}}"; return o.str();
    }
};
static Module* curModule = nullptr;
static std::map<std::string, std::string> pairOptions(Module& M, const std::string& nm) {
    curModule = &M; std::map<std::string, std::string> r; GlobalVariable* g = M.getGlobalVariable("o_" + nm, true);
    if (g && g->hasInitializer()) if (auto* c = dyn_cast<ConstantDataSequential>(g->getInitializer())) {
        std::istringstream is(c->isCString() ? c->getAsCString().str() : ""); std::string t; while (is >> t) { size_t e = t.find('='); r[t.substr(0, e)] = e == std::string::npos ? "1" : t.substr(e + 1); } }
    return r;
}
// ------------------------------------------------ real-field normal form (approximate mode)
typedef std::map<int, int> Mono;               // atom -> exponent in eighths ; error symbols have negative ids
typedef std::map<Mono, double> RPoly;
struct RealNF {
    std::map<RPoly, int> sums; std::map<int, double> ebound; int nextSum = 1000000000; int nextErr = -1; std::map<Val, int> errOf;
    std::map<Val, RPoly> memo;
    static void clean(RPoly& p) { for (auto it = p.begin(); it != p.end();) if (std::fabs(it->second) < 1e-13) it = p.erase(it); else ++it; }
    static RPoly addp(const RPoly& a, const RPoly& b, double s) { RPoly r = a; for (auto& m : b) r[m.first] += s * m.second; clean(r); return r; }
    static RPoly mulp(const RPoly& a, const RPoly& b) { RPoly r; for (auto& x : a) for (auto& y : b) { Mono m = x.first; for (auto& e : y.first) { int& q = m[e.first]; q += e.second; if (!q) m.erase(e.first); } r[m] += x.second * y.second; } clean(r); if (r.size() > 3000) throw Undecided("real normal form too large"); return r; }
    RPoly atom(int a) { RPoly r; r[Mono{{a, 8}}] = 1; return r; }
    RPoly atomize(const RPoly& p) { auto r = sums.emplace(p, nextSum); if (r.second) ++nextSum; return atom(r.first->second); }
    // one product with relative errors: collect them in one new error symbol (with room for the power taken of it)
    std::map<RPoly, int> folded;
    RPoly foldErr(const RPoly& p) {
        Mono base; bool first = true; double c0 = 0, dev = 0;
        for (auto& m : p) { Mono b; double e = std::fabs(m.second); bool has = false;
            for (auto& a : m.first) if (a.first < 0) { has = true; if (a.second < 0 || a.second % 8) return p; e *= std::pow(ebound[a.first], a.second / 8); } else b[a.first] = a.second;
            if (first) base = b; else if (b != base) return p;
            first = false; if (has) dev += e; else c0 = m.second; }
        if (c0 == 0 || dev == 0) return p;
        dev /= std::fabs(c0); if (dev > 0.1) return p;
        auto it = folded.emplace(p, nextErr); if (it.second) ebound[nextErr--] = dev / (1 - dev);
        // (1 + e)^(num/den) = 1 + e', with |e'| <= |e| / (1 - |e|) for the powers used here (-1, 1/2, -1/2)
        RPoly r; r[base] = c0; fold = it.first->second; return r;
    }
    int fold = 0;
    RPoly powr(RPoly p, int num, int den) { // p^(num/den)
        if (p.empty()) return p;
        if (p.size() != 1) p = foldErr(p);
        if (p.size() != 1) p = atomize(p);
        Mono m; for (auto& e : p.begin()->first) { int x = e.second * num; if (x % den) throw Undecided("exponent"); m[e.first] = x / den; }
        double c = std::pow(p.begin()->second, (double)num / den); RPoly r; r[m] = c;
        if (fold) { RPoly one; one[{}] = 1; one[Mono{{fold, 8}}] = 1; fold = 0; return mulp(r, one); }
        return r;
    }
    int err(Val key, double b) { auto it = errOf.find(key); if (it != errOf.end()) return it->second; ebound[nextErr] = b; return errOf[key] = nextErr--; }
    RPoly withErr(const RPoly& p, Val key, double b) { RPoly one; one[{}] = 1; one[Mono{{err(key, b), 8}}] = 1; return mulp(p, one); }
    RPoly nf(Val v) { auto it = memo.find(v); if (it != memo.end()) return it->second; RPoly r = nf0(v); memo[v] = r; return r; }
    RPoly nf0(Val v) {
        int w = D.width(v);
        if (D.isConst(v) && (w == 32 || w == 64)) { double d = Analyzer::asD(D.constVal(v), w); RPoly r; if (d != 0) r[{}] = d; return r; }
        TermId t = D.asTerm(v);
        if (t < 0) {
            std::vector<Node> x = D.bits(v); if (x[w - 1] > 1) { x[w - 1] = D.b.NOT(x[w - 1]); Val n = D.mk(x); if (D.asTerm(n) >= 0 || D.isWord(n)) { RPoly r = nf(n); for (auto& m : r) m.second = -m.second; return r; } }
            return atom(v);
        }
        const Term T = D.terms[t];
        if (T.op == "FADD") return addp(nf(T.a[0]), nf(T.a[1]), 1);
        if (T.op == "FMUL") return mulp(nf(T.a[0]), nf(T.a[1]));
        if (T.op == "FDIV") return mulp(nf(T.a[0]), powr(nf(T.a[1]), -1, 1));
        if (T.op == "SQRT") return powr(nf(T.a[0]), 1, 2);
        if (T.op == "FMA") return addp(mulp(nf(T.a[0]), nf(T.a[1])), nf(T.a[2]), 1);
        if (T.op == "RCP12") return withErr(powr(nf(T.a[0]), -1, 1), v, 1.5 / 4096);
        if (T.op == "RSQRT12") return withErr(powr(nf(T.a[0]), -1, 2), v, 1.5 / 4096);
        if (T.op == "RCP8") return withErr(powr(nf(T.a[0]), -1, 1), v, 1.0 / 256);
        if (T.op == "RSQRT8") return withErr(powr(nf(T.a[0]), -1, 2), v, 1.0 / 256);
        if (T.op == "RCP22") return withErr(powr(nf(T.a[0]), -1, 1), v, 1.0 / (1 << 22));
        if (T.op == "RSQRT22") return withErr(powr(nf(T.a[0]), -1, 2), v, 1.0 / (1 << 22));
        if (T.op == "RCP14") return withErr(powr(nf(T.a[0]), -1, 1), v, 1.0 / 16384);
        if (T.op == "RSQRT14") return withErr(powr(nf(T.a[0]), -1, 2), v, 1.0 / 16384);
        if (T.op == "FPEXT") return nf(T.a[0]);
        if (T.op == "SITOFP" && D.width(T.a[0]) == 32) return atom(T.a[0]);
        if (T.op == "FPTRUNC") return withErr(nf(T.a[0]), v, 1.0 / (1 << 24));
        return atom(v);
    }
    // relative deviation bound of p from r, or -1 if not equal even for exact operations
    double deviation(const RPoly& p, const RPoly& r) {
        RPoly p0; double bound = 0;
        for (auto& m : p) { bool e = false; for (auto& a : m.first) if (a.first < 0) e = true; if (!e) p0[m.first] = m.second; }
        RPoly d = addp(p0, r, -1); for (auto& m : d) { double ref = 1; auto it = r.find(m.first); if (it != r.end()) ref = std::fabs(it->second); if (std::fabs(m.second) > 1e-7 * ref) return -1; }
        for (auto& m : p) { Mono b; double e = std::fabs(m.second); bool has = false; for (auto& a : m.first) if (a.first < 0) { has = true; if (a.second < 0 || a.second % 8) return -1; e *= std::pow(ebound[a.first], a.second / 8); } else b[a.first] = a.second;
            if (!has) continue; auto it = r.find(b); if (it == r.end()) return -1; bound = std::max(bound, 0.0); bound += e / std::fabs(it->second); }
        return bound;
    }
};
struct Comparer {
    Summary &P, &R; Report& rep; std::map<std::string, std::string> opt; Node care; RealNF rnf; double maxdev = 0; bool verbose;
    bool unk = false;
    void differ(const std::string& what, const std::string& where, std::initializer_list<Val> vs) {
        bool u = false; for (Val v : vs) if (v >= 0) { std::set<Val> seen; if (D.hasUnk(v, seen)) u = true; }
        if (vs.size() == 0) for (Summary* s : {&P, &R}) for (auto& f : s->feat) if (f.first.compare(0, 14, "uninterpreted:") == 0) u = true;
        if (u) { if (rep.status.empty()) { rep.status = "UNDECIDED"; rep.detail = what; rep.where = where; } return; }
        if (rep.status.empty() || rep.status == "UNDECIDED") { rep.status = "DIFF"; rep.detail = what; rep.where = where; }
        else if (rep.detail.size() < 1500) { rep.detail += " || " + what; }
    }
    Node diffBits(Val a, Val b) { Node d = 0; if (D.width(a) != D.width(b)) return 1; for (int i = 0; i < D.width(a); ++i) { Node x = D.bits(a)[i], y = D.bits(b)[i]; if (x != y) { d = D.b.OR(d, D.b.XOR(x, y)); } } return D.b.AND(d, care); }
    bool same(Val a, Val b, Node c) {
        ++rep.obligations;
        if (a == b) return true;
        if (D.width(a) != D.width(b)) return false;
        for (int i = 0; i < D.width(a); ++i) { Node x = D.bits(a)[i], y = D.bits(b)[i]; if (x == y) continue; Node d = D.b.AND(D.b.XOR(x, y), D.b.AND(care, c)); if (!D.valid0(d)) return false; }
        return true;
    }
    // equal as real expressions up to the permitted relative error
    bool approxSame(Val a, Val b, Node c) {
        if (same(a, b, c)) return true;
        Val r = D.lift({a, b}, [&](const std::vector<Val>& x) { return D.bit(approxLeaf(x[0], x[1]) ? 1 : 0); });
        Node bad = D.b.AND(D.b.NOT(D.bits(r)[0]), D.b.AND(care, c));
        return D.valid0(bad);
    }
    bool approxLeaf(Val a, Val b) {
        if (a == b) return true;
        TermId ta = D.asTerm(a), tb = D.asTerm(b);
        auto isI = [&](TermId t) { return t >= 0 && (D.terms[t].op == "FPTOSI" || D.terms[t].op == "FTOIRND"); };
        if (isI(ta) && isI(tb)) { if (opt["rounding"] == "strict" && D.terms[ta].op != D.terms[tb].op) return false; return approxLeaf(D.terms[ta].a[0], D.terms[tb].a[0]); }
        if (isI(ta) != isI(tb)) return false;
        RPoly p = rnf.nf(a), q = rnf.nf(b);
        double d = rnf.deviation(p, q); if (d < 0) return false;
        maxdev = std::max(maxdev, d);
        double lim = std::strtod(opt["approx"].c_str(), nullptr); return d <= lim;
    }
    struct Norm { std::string key; std::vector<Val> args; std::string name; Node cond; const DILocation* loc; int pos; std::vector<std::pair<Val, Val>> loops; };
    #include "events.inc"
    void run() {
        care = D.b.AND(P.assume, R.assume);
        // exits
        std::map<std::string, std::pair<Node, const DILocation*>> xp, xr;
        auto norm = [&](Summary& s, std::map<std::string, std::pair<Node, const DILocation*>>& m) { for (auto& e : s.exits) { if (e.kind == "unreachable") continue; std::string k = e.kind; if (opt.count("anythrow") && k.compare(0, 5, "throw") == 0) k = "throw"; auto& x = m[k]; x.first = D.b.OR(x.first, e.cond); if (!x.second) x.second = e.loc; } for (auto& e : s.exits) if (e.kind == "unreachable") care = D.b.AND(care, D.b.NOT(e.cond)); };
        // statements after a noreturn call are 'unreachable' under a false condition; genuine ones are UB and excluded
        norm(P, xp); norm(R, xr);
        for (auto& e : xp) { ++rep.obligations; Node rc = xr.count(e.first) ? xr[e.first].first : 0; Node d = D.b.AND(D.b.XOR(e.second.first, rc), care); if (!D.valid0(d)) differ("exit '" + e.first + "' taken under [" + D.showBool(e.second.first, 8) + "], specification says [" + D.showBool(rc, 8) + "]", locStr(e.second.second), {}); }
        for (auto& e : xr) if (!xp.count(e.first)) { ++rep.obligations; Node d = D.b.AND(e.second.first, care); if (!D.valid0(d)) differ("missing exit '" + e.first + "' required under [" + D.showBool(e.second.first, 8) + "]", "", {}); }
        Node rd = D.b.AND(D.b.XOR(P.retCond, R.retCond), care); ++rep.obligations;
        if (!D.valid0(rd)) differ("normal return under [" + D.showBool(P.retCond, 8) + "], specification [" + D.showBool(R.retCond, 8) + "]", "", {});
        if ((P.ret >= 0) != (R.ret >= 0) && (P.retCond && R.retCond)) differ("return value presence", "", {});
        bool ap = opt.count("approx");
        if (P.ret >= 0 && R.ret >= 0) { bool ok = ap ? approxSame(P.ret, R.ret, P.retCond) : same(P.ret, R.ret, P.retCond); if (!ok) differ("returned value " + D.show(P.ret) + " , specification " + D.show(R.ret), "", {P.ret, R.ret}); }
        // memory
        std::set<MKey> keys; for (auto& e : P.mem) keys.insert(e.first); for (auto& e : R.mem) keys.insert(e.first);
        if (opt.count("ign")) { // ign=<parameter>:<bytes>,...  private fields of a caller-provided object
            std::stringstream ss(opt["ign"]); std::string it; while (std::getline(ss, it, ',')) { int pi = atoi(it.c_str()); int64_t nb = atoll(it.substr(it.find(':') + 1).c_str()), lo = 0; size_t sl = it.find('/'); if (sl != std::string::npos) lo = atoll(it.c_str() + sl + 1);
                for (auto k = keys.begin(); k != keys.end();) { TermId t = D.asTerm(k->first); if (t >= 0 && D.terms[t].op == "PARAM" && D.terms[t].imm[0] == pi && (int64_t)k->second >= lo && (int64_t)k->second < nb) k = keys.erase(k); else ++k; } } }
        if (opt.count("balance")) for (auto k = keys.begin(); k != keys.end();) { TermId t = D.asTerm(k->first); if (t >= 0 && D.terms[t].op == "RET" && D.terms[t].s == "ev_alloc") k = keys.erase(k); else ++k; } // released storage
        int elt = opt.count("elt") ? atoi(opt["elt"].c_str()) : 0; std::set<MKey> done; int shown = 0;
        for (auto& k : keys) {
            if (done.count(k)) continue;
            int n = 1; if (elt) { n = elt; for (int i = 1; i < elt; ++i) if (!keys.count({k.first, k.second + i})) n = 1; }
            else { n = 4; for (int i = 1; i < 4; ++i) if (!keys.count({k.first, k.second + i})) n = 1; if (n == 4) { n = 8; for (int i = 4; i < 8; ++i) if (!keys.count({k.first, k.second + i})) n = 4; } }
            std::vector<Val> a, b; const DILocation* l = nullptr;
            for (int i = 0; i < n; ++i) { MKey q{k.first, k.second + i}; done.insert(q); auto ip = P.mem.find(q), ir = R.mem.find(q); a.push_back(ip != P.mem.end() ? ip->second.v : pa->initKey(q)); b.push_back(ir != R.mem.end() ? ir->second.v : ra->initKey(q)); if (ip != P.mem.end() && ip->second.loc) l = ip->second.loc; }
            Val x = D.concat(a), y = D.concat(b); Node total = 1;
            bool ok = ap ? approxSame(x, y, total) : same(x, y, total);
            if (!ok && shown++ < 6) differ("memory at " + D.show(k.first) + "+" + std::to_string(k.second) + " (" + std::to_string(n) + " bytes) becomes " + D.show(x) + " , specification " + D.show(y), l ? locStr(l) : "", {x, y});
        }
        compareEvents();
        for (auto& e : P.narrow) { ++rep.obligations; differ("loop whose trip count is only known at run time is driven by a " + std::to_string(e.first) + "-bit counter; it wraps around for counts the interface admits", e.second ? locStr(e.second) : "", {}); }
        // alignment demanded from caller-provided memory
        if (opt.count("maxalign")) { uint64_t mx = ~0ull; { std::stringstream ss(opt["maxalign"]); std::string it; while (std::getline(ss, it, ',')) { uint64_t m1 = strtoull(it.c_str(), 0, 10); if (it[0] == '@') { GlobalVariable* g = curModule->getGlobalVariable(it.substr(1), true); auto* ci = g && g->hasInitializer() ? dyn_cast<ConstantInt>(g->getInitializer()) : nullptr; if (!ci) throw Undecided("no constant " + it); m1 = ci->getZExtValue(); } mx = std::min(mx, m1); } } for (auto& e : P.maxAlign) { ++rep.obligations; if (e.second.a > mx) differ("access through " + D.showTerm(e.first, 3) + " demands " + std::to_string(e.second.a) + "-byte alignment; the interface only guarantees " + std::to_string(mx), locStr(e.second.loc), {}); } }
        if (rep.status.empty()) rep.status = "EQUAL";
        if (ap) rep.relerr = maxdev;
    }
    Analyzer *pa, *ra;
};
static void comparePair(Function* p, Function* r, FunctionAnalysisManager& FAM, const std::map<std::string, std::string>& opt, Report& rep, bool verbose) {
    if (!r) { rep.status = "UNDECIDED"; rep.detail = "no reference function"; return; }
    try {
        rep.status.clear(); rep.detail.clear(); rep.where.clear();
        D = Dom(); Analyzer::initReg.clear();
        D.b.deadline = time(nullptr) + (getenv("VFX_PAIR_SECONDS") ? atoi(getenv("VFX_PAIR_SECONDS")) : 120);
        { auto al = opt.find("aligned"); if (al != opt.end()) { std::stringstream ss(al->second); std::string it; while (std::getline(ss, it, ',')) { TermId t = D.term("PARAM", 64, {}, {atoi(it.c_str())}); D.alignedTerm[t] = __builtin_ctzll(strtoull(it.c_str() + it.find(':') + 1, 0, 10)); D.nonnull.insert(t); } } }
        D.liftBudget = 0; Analyzer a(*p, FAM); a.run();
        D.liftBudget = 0; Analyzer b(*r, FAM); b.run();
        rep.insts = a.S.insts; rep.loops = a.S.loops; rep.files = a.S.files; rep.feat = a.S.feat;
        if (verbose) { for (auto* s : {&a.S, &b.S}) { std::cerr << "--- summary\n"; for (auto& m : s->mem) std::cerr << "  mem " << D.show(m.first.first) << "+" << m.first.second << " = " << D.show(m.second.v) << "\n"; dumpEvents(s->events, 1); for (auto& x : s->exits) std::cerr << "  exit " << x.kind << " if " << D.showBool(x.cond, 8) << "\n"; if (s->ret >= 0) std::cerr << "  ret " << D.show(s->ret) << "\n"; } }
        Comparer c{a.S, b.S, rep, opt, 1, {}, 0, verbose}; c.pa = &a; c.ra = &b; c.run();
    } catch (Undecided& e) { rep.status = "UNDECIDED"; rep.detail = e.what(); }
}

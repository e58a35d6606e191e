    // normalise the event list: expand case splits in arguments, merge counts
    void flatten(const std::vector<Event>& ev, Node cond, std::vector<std::pair<Val, Val>> loops, std::vector<Norm>& out) {
        for (auto& e : ev) {
            Node c = D.b.AND(cond, e.cond); if (c == 0) continue;
            if (e.isLoop) { auto l2 = loops; l2.push_back({e.k, e.trip}); flatten(e.body, c, l2, out); continue; }
            splitArgs(e, c, loops, e.args, out);
        }
    }
    void splitArgs(const Event& e, Node c, const std::vector<std::pair<Val, Val>>& loops, std::vector<Val> args, std::vector<Norm>& out) {
        if (c == 0) return;
        int best = -1; uint64_t bk = ~0ull; for (Val v : args) { int t = D.topPred(v); if (t >= 0 && D.b.varKey[t] < bk) { bk = D.b.varKey[t]; best = t; } }
        if (best < 0) { Norm n; n.name = e.name; n.args = args; n.cond = c; n.loc = e.loc; n.loops = loops; n.pos = (int)out.size(); n.key = e.name; for (Val v : args) n.key += "," + std::to_string(v); for (auto& l : loops) n.key += ";" + std::to_string(l.first) + "<" + std::to_string(l.second); out.push_back(n); return; }
        for (int s = 0; s < 2; ++s) { std::vector<Val> a2; for (Val v : args) { std::vector<Node> x = D.bits(v); for (auto& q : x) q = D.b.compose(q, best, s); a2.push_back(D.mk(x)); } Node lit = s ? D.b.var(best) : D.b.NOT(D.b.var(best)); Node c2 = D.b.AND(c, lit); if (c2 && !D.valid0(D.b.AND(c2, care))) splitArgs(e, c2, loops, a2, out); }
    }
    typedef std::map<std::string, std::vector<Node>> Counts;
    Counts counts(const std::vector<Norm>& v) {
        Counts m; for (auto& n : v) { auto& t = m[n.key]; t.push_back(0); for (size_t j = t.size(); j-- > 1;) t[j] = D.b.OR(t[j], D.b.AND(t[j - 1], n.cond)); t[0] = D.b.OR(t[0], n.cond); while (!t.empty() && t.back() == 0) t.pop_back(); }
        return m;
    }
    std::string showN(const Norm& n) { std::string s = n.name + "("; for (size_t i = 0; i < n.args.size(); ++i) s += (i ? ", " : "") + D.show(n.args[i]); s += ")"; for (auto& l : n.loops) s += " for " + D.show(l.first) + " < " + D.show(l.second); return s; }
    bool conflict(const Norm& a, const Norm& b) {
        bool sa = a.name.compare(0, 4, "seq:") == 0 || a.name.compare(0, 6, "ev_seq") == 0, sb = b.name.compare(0, 4, "seq:") == 0 || b.name.compare(0, 6, "ev_seq") == 0;
        if (sa && sb) return true;
        auto isMem = [&](const std::string& n) { return n.find("alloc") != std::string::npos || n.find("heap.free") != std::string::npos; };
        for (Val x : a.args) for (Val y : b.args) { if (D.width(x) != 64 || D.width(y) != 64 || D.isConst(x) || D.isConst(y)) continue; if (x == y && D.baseOf(x) >= 0) return true; if (isMem(a.name) || isMem(b.name)) { TermId p = D.baseOf(x), q = D.baseOf(y); if (p >= 0 && p == q) return true; } }
        return false;
    }
    void compareEvents() {
        std::vector<Norm> ep, er; flatten(P.events, 1, {}, ep); flatten(R.events, 1, {}, er);
        normLoops(ep); normLoops(er);
        if (opt.count("balance")) { balance(ep); auto strip = [&](std::vector<Norm>& v) { std::vector<Norm> o; for (auto& n : v) if (!isLife(n.name)) o.push_back(n); v = o; }; strip(ep); strip(er); }
        Counts cp = counts(ep), cr = counts(er); int shown = 0;
        auto find = [&](std::vector<Norm>& v, const std::string& k) -> Norm& { for (auto& n : v) if (n.key == k) return n; return v[0]; };
        for (auto& e : cp) for (size_t j = 0; j < std::max(e.second.size(), cr[e.first].size()); ++j) {
            ++rep.obligations; Node a = j < e.second.size() ? e.second[j] : 0, b = j < cr[e.first].size() ? cr[e.first][j] : 0; Node d = D.b.AND(D.b.XOR(a, b), care);
            if (!D.valid0(d) && shown++ < 4) { Norm& n = find(ep, e.first); std::initializer_list<Val> none{}; (void)none; Val u = n.args.empty() ? -1 : n.args[0]; differ("event " + showN(n) + (j ? " #" + std::to_string(j + 1) : "") + " happens under [" + D.showBool(a, 8) + "], specification [" + D.showBool(b, 8) + "]", locStr(n.loc), {u}); } }
        for (auto& e : cr) if (!cp.count(e.first)) for (size_t j = 0; j < e.second.size(); ++j) { ++rep.obligations; if (!D.valid0(D.b.AND(e.second[j], care)) && shown++ < 8) { Norm& n = find(er, e.first); differ("missing event " + showN(n) + " required under [" + D.showBool(e.second[j], 8) + "]", "", {}); } }
        if (!rep.status.empty() || opt.count("noorder")) return;
        auto order = [&](std::vector<Norm>& v, std::map<std::pair<std::string, std::string>, const DILocation*>& o) { for (size_t i = 0; i < v.size(); ++i) for (size_t j = i + 1; j < v.size(); ++j) { if (v[i].key == v[j].key) continue; if (conflict(v[i], v[j]) && D.b.AND(v[i].cond, v[j].cond) != 0 && !D.valid0(D.b.AND(D.b.AND(v[i].cond, v[j].cond), care))) o.emplace(std::make_pair(v[i].key, v[j].key), v[j].loc); } };
        if (ep.size() > 600) { return; }
        std::map<std::pair<std::string, std::string>, const DILocation*> op, orr; order(ep, op); order(er, orr);
        for (auto& x : op) { ++rep.obligations; if (!orr.count(x.first) && shown++ < 4) differ("order: " + showN(find(ep, x.first.first)) + " before " + showN(find(ep, x.first.second)) + " is not permitted", locStr(x.second), {}); }
    }
    void normLoops(std::vector<Norm>& v) { (void)v; }
    // typestate of storage and of observable objects: acquired once, used while alive, released once
    static bool isLife(const std::string& n) { return n == "ev_alloc" || n == "ev_free" || n == "ev_ctor" || n == "ev_dtor" || n == "ev_use" || n == "ev_fail"; }
    void balance(std::vector<Norm>& v) {
        std::map<Val, Node> live; std::map<Val, std::pair<Node, Val>> stor; std::map<Val, const DILocation*> where; int shown = 0;
        auto bad = [&](const std::string& m, const DILocation* l) { if (shown++ < 4) differ(m, locStr(l), {}); };
        std::map<std::string, int> seen;
        for (auto& n : v) {
            if (!isLife(n.name)) continue;
            if (n.name == "ev_fail") continue;
            if (!n.loops.empty()) throw Undecided("life cycle event inside a summarised loop");
            ++rep.obligations; Val p = n.args[0]; Node c = D.b.AND(n.cond, care);
            if (n.name == "ev_alloc") { std::string k = n.name; for (Val a : n.args) k += "," + std::to_string(a); TermId t = D.term("RET", 64, n.args, {seen[k]++}, "ev_alloc"); Val q = D.termVal(t); stor[q] = {D.b.OR(stor.count(q) ? stor[q].first : 0, c), p}; where[q] = n.loc; continue; }
            if (n.name == "ev_free") { auto it = stor.find(p); if (it == stor.end() || !D.valid0(D.b.AND(c, D.b.NOT(it->second.first)))) { bad("storage " + D.show(p) + " is released although it is not held (again, or never acquired)", n.loc); continue; }
                if (it->second.second != n.args[1] && !(D.isConst(n.args[1]) && D.constVal(n.args[1]) == ~0ull)) bad("storage of " + D.show(it->second.second) + " bytes is released as " + D.show(n.args[1]) + " bytes", n.loc);
                for (auto& o : live) if (D.baseOf(o.first) >= 0 && D.baseOf(o.first) == D.baseOf(p) && !D.valid0(D.b.AND(c, o.second))) { bad("storage is released while the member at " + D.show(o.first) + " is still alive", n.loc); break; }
                it->second.first = D.b.AND(it->second.first, D.b.NOT(c)); continue; }
            { TermId bt = D.baseOf(p); if (n.name == "ev_use" && bt >= 0 && D.terms[bt].op == "PARAM" && !live.count(p)) continue; } // objects of the caller are alive
            Node& l = live[p];
            if (n.name == "ev_ctor") { if (!D.valid0(D.b.AND(c, l))) bad("member at " + D.show(p) + " is constructed twice", n.loc); l = D.b.OR(l, c); where[p] = n.loc; }
            else if (n.name == "ev_dtor") { if (!D.valid0(D.b.AND(c, D.b.NOT(l)))) bad("member at " + D.show(p) + " is destroyed although it is not alive", n.loc); l = D.b.AND(l, D.b.NOT(c)); }
            else if (!D.valid0(D.b.AND(c, D.b.NOT(l)))) bad("member at " + D.show(p) + " is assigned although it was never constructed", n.loc);
        }
        for (auto& e : live) { ++rep.obligations; if (!D.valid0(D.b.AND(e.second, care))) bad("member at " + D.show(e.first) + " is never destroyed", where[e.first]); }
        for (auto& e : stor) { ++rep.obligations; if (!D.valid0(D.b.AND(e.second.first, care))) bad("storage of " + D.show(e.second.second) + " bytes is never released", where[e.first]); }
        // stores stay within the storage they address
        for (auto& m : P.mem) { TermId t = D.asTerm(m.first.first); if (t < 0 || D.terms[t].op != "RET" || D.terms[t].s != "ev_alloc") continue; Val n = D.terms[t].a[0]; ++rep.obligations; if (D.isConst(n) && (m.first.second < 0 || (uint64_t)m.first.second >= D.constVal(n))) { Val z = pa->initKey(m.first); if (z == m.second.v) continue; Node d = 0; std::vector<Node> x = D.bits(z), y = D.bits(m.second.v); for (size_t i = 0; i < x.size(); ++i) d = D.b.OR(d, D.b.XOR(x[i], y[i])); if (D.valid0(D.b.AND(d, care))) continue; bad("write at offset " + std::to_string(m.first.second) + " of storage of " + D.show(n) + " bytes", m.second.loc); break; } }
    }

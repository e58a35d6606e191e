    // Loops are followed iteration by iteration as long as the analysis can bound the trip
    // count (the back-edge condition becomes unsatisfiable); states are joined at the exits.
    // The trip count is only known at run time: a counter of 16 bits or less wraps around for long enough runs.
    void narrowCounters(Loop* L, bool runtime) {
        for (PHINode& ph : L->getHeader()->phis()) {
            auto* it = dyn_cast<IntegerType>(ph.getType()); if (!it || it->getBitWidth() < 8 || it->getBitWidth() > 16) continue;
            bool steps = false, widened = false;
            for (BasicBlock* P : predecessors(L->getHeader())) if (L->contains(P)) { // value + constant, computed in int and truncated
                Value* v = ph.getIncomingValueForBlock(P); if (auto* t = dyn_cast<TruncInst>(v)) v = t->getOperand(0);
                auto* bo = dyn_cast<BinaryOperator>(v); if (!bo || (bo->getOpcode() != Instruction::Add && bo->getOpcode() != Instruction::Sub) || !isa<ConstantInt>(bo->getOperand(1))) continue;
                Value* x = bo->getOperand(0); if (auto* c = dyn_cast<CastInst>(x)) x = c->getOperand(0);
                if (x == &ph) steps = true; }
            for (User* u : ph.users()) if ((isa<ZExtInst>(u) || isa<SExtInst>(u)) && !u->use_empty()) widened = true;
            if (!runtime) { // the bound happens to be known here, but the code reads it from memory or a parameter
                widened = false;
                for (User* u : ph.users()) if (isa<ZExtInst>(u) || isa<SExtInst>(u)) for (User* c : u->users()) if (auto* ic = dyn_cast<ICmpInst>(c)) {
                    Value* o = ic->getOperand(0) == u ? ic->getOperand(1) : ic->getOperand(0); if (isa<Constant>(o) || (!L->isLoopInvariant(o) && !isa<LoadInst>(o))) continue;
                    if (auto* k = dyn_cast<CastInst>(o)) if ((isa<ZExtInst>(k) || isa<SExtInst>(k)) && k->getSrcTy()->getIntegerBitWidth() <= it->getBitWidth() && !isa<TruncInst>(k->getOperand(0))) continue; // (a bound that was cut down to the width of the counter is wrong as well)
                    widened = true; } }
            if (steps && widened) S.narrow[(int)it->getBitWidth()] = L->getStartLoc() ? L->getStartLoc().get() : nullptr;
        }
    }
    static const int maxIter = 200000;
    void loop(Loop* L, State st, const Incoming& inc0) {
        ++S.loops;
        BasicBlock* H = L->getHeader();
        for (BasicBlock* X : L->blocks()) for (BasicBlock* s : successors(X)) if (!L->contains(s)) edge.erase({X, s});
        std::vector<EdgeRec> back; Incoming inc = inc0;
        int symbolic = 0; narrowCounters(L, false);
        for (int it = 0;; ++it) {
            if (it > maxIter) und("loop too long at " + locStr(L->getStartLoc().get()));
            phis(*H, inc);
            for (BasicBlock* X : L->blocks()) for (BasicBlock* s : successors(X)) if (L->contains(s)) edge.erase({X, s});
            Node entered = st.cond; region(L, H, std::move(st), false); st.mem = noMem;
            std::vector<EdgeRec> nb; for (BasicBlock* P : predecessors(H)) if (L->contains(P)) { auto e = edge.find({P, H}); if (e != edge.end()) for (auto& r : e->second) if (r.st.cond) nb.push_back(std::move(r)); }
            Node c = 0; for (auto& r : nb) c = D.b.OR(c, r.st.cond);
            if (c == 0) break;
            if (c != entered) { // not decided by constants
                if (D.valid0(D.b.AND(c, S.assume))) break;
                if (symbolic == 0) narrowCounters(L, true);
                if (++symbolic > 40) und("loop with symbolic trip count at " + (L->getStartLoc() ? locStr(L->getStartLoc().get()) : std::string("?")));
            }
            back.swap(nb); inc.clear(); std::vector<State*> v; for (auto& r : back) { inc.push_back(&r); v.push_back(&r.st); }
            st = merge(v); for (auto* q : v) q->mem = noMem;
        }
        for (BasicBlock* X : L->blocks()) for (BasicBlock* s : successors(X)) if (!L->contains(s) && !edge.count({X, s})) { State z; z.cond = 0; z.mem = noMem; setEdge(X, s, z); }
    }

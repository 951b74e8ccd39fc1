// Richer generator of C programs with known output: typed expressions, all storage kinds, side
// effects, all statements; the expected text comes from executing the syntax tree here.
#include "genutil.h"
#include <memory>
namespace {
enum Ty { T_I, T_U, T_C, T_UC, T_V, T_P /* +pointee (T_I..T_UC) */ = 8, T_PR = 16 /* struct Rec* */ };
bool isPtr(int t) { return t >= T_P; }
int sizeOf(int t) { return t == T_C || t == T_UC ? 1 : 2; }
struct Var { string name; int t = T_I; int n = 0, m = 0; bool rec = false; bool global = false; int addr = 0; bool scratch = false; bool fptr = false; bool konst = false; };
typedef std::shared_ptr<Var> VP;
struct Fn;
struct E; typedef std::shared_ptr<E> EP;
enum Op { NUM, VAR, IDX, IDX2, DEREF, FLD, ADDR, NEG, INV, NOT, ADD, SUB, MUL, DIV, MOD, AND, OR, XOR, SHL, SHR, LT, GT, LE, GE, EQ, NE, LAND, LOR, COND, COMMA,
    ASSIGN, OPASSIGN, PRE, POST, CALL, CALLP, CAST, STR, PADD, PDIFF };
// FLD: v = field number; base expression a is a Rec lvalue or (w=1) a pointer to Rec
struct E { int op; int t = T_I; long v = 0; int w = 0; EP a, b, c; vector<EP> args; VP var; Fn* fn = nullptr; string s; bool paren = false; };
enum SOp { S_EXPR, S_IF, S_WHILE, S_DO, S_FOR, S_SWITCH, S_BREAK, S_CONTINUE, S_RETURN, S_BLOCK, S_DECL, S_GOTO, S_LABEL, S_PUTN, S_PUTS, S_PUTC, S_RECCOPY, S_EMPTY, S_SETFP, S_RAW, S_WLOOP, S_TEXT };
struct S; typedef std::shared_ptr<S> SP;
struct S { int op; EP a, b, c; vector<SP> body, body2; vector<VP> vars; vector<EP> inits; vector<int> cases; vector<vector<SP>> cb; int v = 0; string s; Fn* fn = nullptr; bool braces = true; vector<u16> prints; };
struct Fn { string name; int ret = T_I; vector<VP> par; vector<SP> body; int frame = 0; bool variadic = false; int sig = 0; bool proto = false; };
struct Field { const char* n; int t; int off; int cnt; };
const Field fields[] = { { "a", T_I, 0, 0 }, { "b", T_C, 2, 0 }, { "c", T_UC, 3, 3 }, { "u", T_U, 6, 0 }, { "in.p", T_C, 8, 0 }, { "in.q", T_I, 9, 0 }, { "w", T_I, 11, 4 } };
enum { NFIELDS = 7, RECSIZE = 19 };

struct G {
    Rng& r; int style; bool lib; int budget;
    vector<VP> globals; vector<std::shared_ptr<Fn>> fns; vector<VP> scope; // visible variables
    Fn* cur = nullptr; std::set<VP> touched; // scratch variables used in the current full expression
    int nameNo = 0, labelNo = 0, loops = 0; string strs[2]; int galloc = 0x100;
    bool noCall = false; int callable = 0; // functions fns[0..callable) may be called
    G(Rng& r_, int s, bool l) : r(r_), style(s), lib(l), budget(0) {}
    // ------------------------------------------------------------ construction
    EP mk(int op, int t, EP a = nullptr, EP b = nullptr) { auto e = std::make_shared<E>(); e->op = op; e->t = t; e->a = a; e->b = b; return e; }
    EP lit(long v) { EP e = mk(NUM, T_I); e->v = v; return e; }
    EP var(const VP& v) { EP e = mk(VAR, v->t); e->var = v; return e; }
    SP ms(int op) { auto s = std::make_shared<S>(); s->op = op; return s; }
    string fresh(const char* base) { string n = sfmt("%s%d", base, nameNo++); if (style > 0 && r.chance(1, 4)) n += "_" + string(r.below(12), (char)('a' + r.below(26))); return n; }
    static int arith(int a, int b) { return a == T_U || b == T_U ? T_U : T_I; }
    // with a constant condition scc gives a ?: the type of the arm used: keep the types equal
    void sameSign(EP& e) {
        bool b = prom(e->b->t) == T_U, c = prom(e->c->t) == T_U;
        if (b && !c) e->b = mk(CAST, T_I, e->b);
        if (c && !b) e->c = mk(CAST, T_I, e->c);
        e->t = arith(e->b->t, e->c->t);
    }
    static int prom(int t) { return t == T_U ? T_U : T_I; }
    bool konst(const EP& e) { // constant expression as the compiler sees it
        if (!e) return true;
        switch (e->op) { case NUM: return true; case NEG: case INV: case NOT: return konst(e->a);
        case COND: { if (!konst(e->a)) return false; long c; return !small(e->a, &c) || konst(c ? e->b : e->c); } // only the selected arm is compiled
        default: if (e->op >= ADD && e->op <= LOR) return konst(e->a) && konst(e->b); return false; }
    }
    VP pick(std::function<bool(const Var&)> f) {
        vector<VP> c; for (auto& v : scope) if (f(*v)) c.push_back(v);
        return c.empty() ? nullptr : c[r.below((u32)c.size())];
    }
    EP fldOf(EP base, bool ptr, int f, int d) {
        EP e = mk(FLD, fields[f].t, base); e->w = ptr; e->v = f;
        if (fields[f].cnt) { e->b = index(fields[f].cnt == 4 ? 3 : 1, d); }
        return e;
    }
    EP index(int mask, int d) { // value within 0..mask
        if (d <= 0 || r.chance(1, 3)) return lit((long)r.below((u32)mask + 1));
        EP x = gen(d - 1); if (konst(x)) return lit((long)r.below((u32)mask + 1));
        return mk(AND, prom(x->t) == T_U ? T_U : T_I, x, lit(mask));
    }
    EP recBase(int d, bool* ptr) {
        for (int i = 0; i < 3; ++i) switch (r.below(3)) {
        case 0: { VP v = pick([](const Var& x) { return x.rec && !x.n; }); if (!v) break; *ptr = false; return var(v); }
        case 1: { VP v = pick([](const Var& x) { return x.rec && x.n == 4; }); if (!v) break; *ptr = false; EP e = mk(IDX, T_V); e->a = var(v); e->b = index(3, d); return e; }
        default: { VP v = pick([](const Var& x) { return x.t == T_PR && !x.rec; }); if (!v) break; *ptr = true; return var(v); }
        }
        return nullptr;
    }
    EP lval(int d, bool scratch = false) {
        for (int i = 0; i < 6; ++i) switch (scratch ? 0 : (int)r.below(9)) {
        case 0: case 1: case 2: {
            VP v = pick([&](const Var& x) { return x.t < T_V && !x.n && !x.rec && !x.fptr && !x.konst && x.scratch == scratch; });
            if (!v) break; if (scratch && touched.count(v)) { if (i < 5) break; return nullptr; }
            if (scratch) touched.insert(v);
            return var(v);
        }
        case 3: case 4: { VP v = pick([](const Var& x) { return x.t < T_V && x.n == 8 && !x.m && !x.konst; }); if (!v) break; EP e = mk(IDX, v->t); e->a = var(v); e->b = index(7, d); return e; }
        case 5: { VP v = pick([](const Var& x) { return x.m == 4 && x.n == 2; }); if (!v) break; EP e = mk(IDX2, v->t); e->a = var(v); e->b = index(1, d); e->c = index(3, d); return e; }
        case 6: { bool p; EP b = recBase(d, &p); if (!b) break; return fldOf(b, p, (int)r.below(NFIELDS), d); }
        default: { // through a pointer: pointers always have four valid elements in front of them
            VP v = pick([](const Var& x) { return x.t >= T_P && x.t < T_P + 4 && !x.n && !x.konst; }); if (!v) break;
            int t = v->t - T_P;
            switch (r.below(3)) {
            case 0: return mk(DEREF, t, var(v));
            case 1: { EP e = mk(DEREF, t, mk(PADD, v->t, var(v), index(3, d))); return e; }
            default: { EP e = mk(IDX, t); e->a = var(v); e->b = index(3, d); return e; }
            }
        }
        }
        return nullptr;
    }
    EP leaf(int d) {
        switch (r.below(10)) {
        case 0: case 1: case 2: return lit(r.pick({ 0, 1, 2, 3, 7, 8, 10, 15, 42, 100, 127, 128, 129, 255, 256, 257, 1000, 4095, 32767, (int)r.below(3000), (int)r.below(300) }));
        case 3: { EP e = mk(STR, T_C); e->v = (long)r.below(2); e->a = index(7, d); return e; }
        default: { EP e = lval(d); return e ? e : lit((long)r.below(100)); }
        }
    }
    bool small(const EP& e, long* v) { // value of a constant expression if every intermediate fits an int
        long a, b, c;
        switch (e->op) {
        case NUM: *v = e->v; return true;
        case NEG: if (!small(e->a, &a)) return false; *v = -a; break;
        case INV: if (!small(e->a, &a)) return false; *v = ~a; break;
        case NOT: if (!small(e->a, &a)) return false; *v = !a; break;
        case COND: if (!small(e->a, &a) || !small(a ? e->b : e->c, &b)) return false; *v = b; break;
        default:
            if (!e->a || !e->b || !small(e->a, &a) || !small(e->b, &b)) return false;
            switch (e->op) {
            case ADD: *v = a + b; break; case SUB: *v = a - b; break; case MUL: *v = a * b; break;
            case DIV: if (!b) return false; *v = a / b; break; case MOD: if (!b) return false; *v = a % b; break;
            case AND: *v = a & b; break; case OR: *v = a | b; break; case XOR: *v = a ^ b; break;
            case SHL: if (b < 0 || b > 14 || a < 0) return false; *v = a << b; break; case SHR: if (b < 0 || b > 14) return false; *v = a >> b; break;
            case LT: *v = a < b; break; case GT: *v = a > b; break; case LE: *v = a <= b; break; case GE: *v = a >= b; break; case EQ: *v = a == b; break; case NE: *v = a != b; break; case LAND: *v = a && b; break; case LOR: *v = a || b; break;
            default: return false;
            }
        }
        return *v >= -32767 && *v <= 32767;
    }
    EP var0() { EP e = lval(0); if (e && !konst(e)) return e; VP v = pick([](const Var& x) { return x.t < T_V && !x.n && !x.rec && !x.fptr; }); return v ? var(v) : lit(1); }
    EP gen(int d) { EP e = gen0(d); return fix(e); }
    EP fix(EP e) {
        if (e->op != NUM && konst(e)) { long v; if (!foldOk(e, &v)) return var0(); }
        return e;
    }
    bool foldOk(const EP& e, long* v) { // forms the compiler folds
        return (e->op == NEG || e->op == INV || e->op == NOT || (e->op >= ADD && e->op <= LOR)) && small(e, v);
    }
    static bool isBool(const EP& e) { return e->op == NOT || (e->op >= LT && e->op <= LOR); }
    EP gen0(int d) {
        if (d <= 0 || r.chance(1, 6)) return leaf(d);
        switch (r.below(30)) {
        case 0: case 1: case 2: { EP a = gen(d - 1), b = gen(d - 1); return mk(ADD, arith(a->t, b->t), a, b); }
        case 3: case 4: { EP a = gen(d - 1), b = gen(d - 1); return mk(SUB, arith(a->t, b->t), a, b); }
        case 5: { EP a = gen(d - 1), b = gen(d - 1); return mk(MUL, arith(a->t, b->t), a, b); }
        case 6: case 7: { // division by 1..16 or by a constant
            EP a = gen(d - 1), b;
            if (r.chance(1, 2)) b = lit(r.pick({ 1, 2, 3, 4, 7, 8, 10, 16, 64, 100, 256, 1000, 32767 }));
            else { EP x = gen(d - 2); if (konst(x)) b = lit(5); else { b = mk(AND, prom(x->t), x, lit(15)); b = mk(ADD, b->t, b, lit(1)); } }
            return mk(r.chance(1, 2) ? DIV : MOD, arith(a->t, b->t), a, b);
        }
        case 8: case 9: case 10: { EP a = gen(d - 1), b = gen(d - 1); return mk(r.pick({ (int)AND, (int)OR, (int)XOR }), arith(a->t, b->t), a, b); }
        case 11: case 12: { // shifts by 0..7 or a constant
            EP a = gen(d - 1), b;
            if (r.chance(1, 2)) b = lit((long)r.below(16)); else { EP x = gen(d - 2); b = konst(x) ? lit(3) : mk(AND, prom(x->t), x, lit(7)); }
            return mk(r.chance(1, 2) ? SHL : SHR, prom(a->t), a, b);
        }
        case 13: case 14: case 15: { if (r.chance(1, 8)) { long k = r.pick({ 0, 1, -1, 255, 256, 32767, (int)r.below(2000) - 1000 }), k2 = r.chance(1, 2) ? k : r.chance(1, 2) && k < 32767 ? k + 1 : (long)r.below(600) - 300; return mk(r.pick({ (int)LT, (int)GT, (int)LE, (int)GE, (int)EQ, (int)NE }), T_I, lit(k), lit(k2)); } EP a = gen(d - 1), b = gen(d - 1); if (konst(a)) a = var0(); return mk(r.pick({ (int)LT, (int)GT, (int)LE, (int)GE, (int)EQ, (int)NE }), T_I, a, b); }
        case 16: case 17: { EP a = r.chance(1, 10) ? lit(r.pick({ 0, 1, 256, -1 })) : gen(d - 1), b = r.chance(1, 20) ? lit(r.pick({ 0, 1, 256, 3 })) : gen(d - 1); if (konst(a) && r.chance(1, 2)) a = var0(); if (konst(b) && r.chance(1, 2)) b = var0(); return mk(r.chance(1, 2) ? LAND : LOR, T_I, a, b); }
        case 18: { EP a = r.chance(1, 12) ? lit(r.pick({ 0, 1, 256, -1 })) : gen(d - 1); if (konst(a) && r.chance(1, 2)) a = var0(); return mk(NOT, T_I, a); }
        case 19: { EP a = gen(d - 1); return mk(r.chance(1, 2) ? NEG : INV, prom(a->t), a); }
        case 20: { EP e = mk(COND, T_I, gen(d - 1), gen(d - 1)); if (konst(e->a)) e->a = r.chance(1, 2) ? lit((long)r.below(2)) : var0(); e->c = gen(d - 1); if (konst(e->a)) sameSign(e); e->t = arith(e->b->t, e->c->t); return e; }
        case 21: { EP a = gen(d - 1); if (konst(a)) return a; EP e = mk(CAST, r.pick({ (int)T_C, (int)T_UC, (int)T_U, (int)T_I }), a); return e; }
        case 22: case 23: case 24: if (!noCall) { EP c = call(d); if (c) return c; } return leaf(d);
        case 25: case 26: case 27: return side(d);
        case 28: { EP s = side(d), b = gen(d - 1); if (s->op < ASSIGN) return b; if (konst(b) || b->op == COND) b = var0(); EP e = mk(COMMA, b->t, s, b); return e; }
        default: return leaf(d);
        }
    }
    bool simple(const EP& e) { return e->op == NUM || e->op == VAR || e->op == IDX || e->op == FLD; } // in code that may be dead
    EP side(int d) { // an expression that changes a variable not otherwise used in this full expression
        EP l = lval(0, true); if (!l) return leaf(d);
        switch (r.below(4)) {
        case 0: { EP e = mk(PRE, l->t, l); e->v = r.chance(1, 2) ? 1 : -1; return e; }
        case 1: { EP e = mk(POST, l->t, l); e->v = r.chance(1, 2) ? 1 : -1; return e; }
        case 2: { EP x = gen(d - 1); if (konst(x)) x = var0(); return mk(ASSIGN, l->t, l, x); }
        default: return opAssign(l, d);
        }
    }
    EP opAssign(EP l, int d) {
        EP e = mk(OPASSIGN, l->t, l); e->w = r.pick({ (int)ADD, (int)ADD, (int)SUB, (int)SUB, (int)MUL, (int)AND, (int)OR, (int)XOR, (int)SHL, (int)SHR, (int)DIV, (int)MOD });
        if (e->w == SHL || e->w == SHR) { EP x = gen(d - 1); e->b = konst(x) || r.chance(1, 2) ? lit((long)r.below(9)) : mk(AND, prom(x->t), x, lit(7)); }
        else if (e->w == DIV || e->w == MOD) { EP x = gen(d - 1); if (konst(x) || r.chance(1, 2)) e->b = lit(r.pick({ 1, 2, 3, 8, 10, 255, 1000 })); else { EP m = mk(AND, prom(x->t), x, lit(15)); e->b = mk(ADD, m->t, m, lit(1)); } }
        else e->b = gen(d - 1);
        return e;
    }
    EP call(int d) {
        if (!callable) return nullptr;
        Fn* f = fns[r.below((u32)callable)].get();
        if (f->ret == T_V) return nullptr;
        // through a function pointer?
        VP fp = r.chance(1, 4) ? pick([&](const Var& x) { return x.fptr; }) : nullptr;
        EP e;
        if (fp) { e = mk(CALLP, T_I); e->var = fp; for (int i = 0; i < 2; ++i) e->args.push_back(gen(d - 2)); return e; }
        e = mk(CALL, f->ret); e->fn = f;
        if (f->variadic) { int n = r.range(0, 4); e->args.push_back(lit(n)); while (n--) e->args.push_back(gen(d - 2)); return e; }
        for (auto& p : f->par) e->args.push_back(isPtr(p->t) ? ptrTo(p->t, d - 1) : p->name == "depth" ? index(3, d - 1) : gen(d - 2));
        return e;
    }
    EP ptrTo(int t, int d) { // pointer value with at least four elements in front of it
        if (t == T_PR) { VP v = pick([](const Var& x) { return x.rec; }); if (v && !v->n) { EP e = mk(ADDR, T_PR, var(v)); return e; } if (v) { EP i = mk(IDX, T_V); i->a = var(v); i->b = index(3, d); return mk(ADDR, T_PR, i); } }
        VP p = pick([&](const Var& x) { return x.t == t && !x.n; }); if (p && r.chance(1, 3)) return var(p);
        VP v = pick([&](const Var& x) { return x.t == t - T_P && x.n == 8 && !x.m; });
        if (!v) { v = pick([&](const Var& x) { return x.t == t - T_P && x.n == 2 && x.m == 4; }); if (v) { EP i = mk(IDX, t); i->a = var(v); i->b = index(1, d); i->w = 1; return i; } }
        if (!v) for (auto& g : globals) if (g->t == t - T_P && g->n == 8) v = g; // always one
        switch (r.below(3)) {
        case 0: return var(v)->t, arr(v);
        case 1: { EP i = mk(IDX, t - T_P); i->a = var(v); i->b = index(3, d); return mk(ADDR, t, i); }
        default: return mk(PADD, t, arr(v), index(3, d));
        }
    }
    EP arr(const VP& v) { EP e = var(v); e->t = T_P + v->t; e->w = 1; return e; }
    // ------------------------------------------------------------ statements
    EP full(int d) { touched.clear(); return gen(d); }
    EP cond(int d) { EP e = full(d); if (r.chance(1, 12)) return lit((long)r.below(2)); return e; }
    vector<SP> block(int n, int d, int loop) { vector<SP> v; while (n-- > 0 && budget > 0) { --budget; SP s = stmt(d, loop); if (s) v.push_back(s); } return v; }
    SP putn(EP e) { SP s = ms(S_PUTN); s->a = e; return s; }
    string word() { string s; int n = r.range(0, 14); while (n--) s += r.chance(1, 12) ? "\"\\'%/*#;\t"[r.below(9)] : (char)(' ' + r.below(95)); for (auto& c : s) if (c == '%' && lib) c = '$'; return s; }
    SP decl(int d) {
        SP s = ms(S_DECL); int n = r.range(1, 2);
        int t = r.pick({ (int)T_I, (int)T_I, (int)T_U, (int)T_C, (int)T_UC, (int)T_P + T_I, (int)T_P + T_C, (int)T_PR });
        if (t == T_PR && !pick([](const Var& x) { return x.rec; })) t = T_I;
        if (isPtr(t)) n = 1;
        while (n--) {
            auto v = std::make_shared<Var>(); v->t = t;
            v->name = r.chance(1, 5) && !scope.empty() ? shadow() : fresh("l");
            if (v->name == "depth" || v->name[0] == 'k') v->name = fresh("l");
            bool dup = false; for (auto& o : s->vars) dup |= o->name == v->name; if (dup) v->name = fresh("l");
            for (auto& o : blockNames) dup |= o == v->name; if (dup) v->name = fresh("l");
            blockNames.push_back(v->name);
            unsee(v->name); touched.clear(); EP init = isPtr(t) ? ptrTo(t, d) : full(d); // the name is already in scope in its own initialiser
            v->addr = cur->frame; cur->frame += 2; v->scratch = !isPtr(t) && r.chance(1, 3);
            s->vars.push_back(v); s->inits.push_back(init);
            hide(v);
        }
        return s;
    }
    vector<string> blockNames;
    string shadow() { auto& v = scope[r.below((u32)scope.size())]; return v->n || v->rec || v->fptr ? fresh("l") : v->name; }
    void unsee(const string& n) { vector<VP> s; for (auto& o : scope) if (o->name != n) s.push_back(o); scope = s; }
    void hide(const VP& v) { unsee(v->name); scope.push_back(v); }
    // a pointer that moves over an array
    SP walk() {
        VP v = pick([](const Var& x) { return !x.konst && !x.fptr && ((x.t <= T_UC && x.n == 8 && !x.m && !x.rec) || (x.rec && x.n == 4)); }); if (!v) return nullptr;
        SP b = ms(S_BLOCK); auto save = scope; int N = v->rec ? 4 : 8, pt = v->rec ? (int)T_PR : T_P + v->t, at = r.range(0, N);
        auto w = std::make_shared<Var>(); w->t = pt; w->name = fresh("w"); w->konst = true; w->addr = cur->frame; cur->frame += 2;
        auto elemAt = [&](int i) -> EP { EP e; if (v->rec || r.chance(1, 2)) { e = mk(IDX, v->rec ? (int)T_V : v->t); e->a = var(v); e->b = lit(i); return mk(ADDR, pt, e); } return mk(PADD, pt, arr(v), lit(i)); };
        auto expr = [&](EP e) { SP s = ms(S_EXPR); s->a = e; b->body.push_back(s); };
        auto what = [&](EP p) -> EP { // the lvalue at *p (or a member)
            if (!v->rec) return r.chance(1, 4) && p->op == VAR ? [&] { EP e = mk(IDX, v->t); e->a = p; e->b = lit(0); return e; }() : mk(DEREF, v->t, p);
            int f = (int)r.below(NFIELDS); EP e = mk(FLD, fields[f].t, p); e->w = 1; e->v = f; if (fields[f].cnt) e->b = lit((long)r.below((u32)fields[f].cnt)); return e;
        };
        SP dcl = ms(S_DECL); dcl->vars.push_back(w); dcl->inits.push_back(elemAt(at)); b->body.push_back(dcl);
        auto step = [&](bool post, int by) { EP e = mk(post ? POST : PRE, pt, var(w)); e->v = by; at += by; return e; };
        for (int i = r.range(2, 7); i--;) {
            switch (r.below(11)) {
            case 0: { int k = r.range(-at, N - at); EP e = mk(OPASSIGN, pt, var(w), lit(k < 0 ? -k : k)); e->w = k < 0 ? SUB : ADD; expr(e); at += k; break; }
            case 1: { touched.clear(); int m = at + 3 <= N ? 3 : at >= 3 ? -3 : 0; if (!m) break; EP x = gen(1); if (konst(x)) break; EP e = mk(OPASSIGN, pt, var(w), mk(AND, prom(x->t), x, lit(3))); e->w = m > 0 ? ADD : SUB; expr(e);
                b->body.push_back(putn(mk(PDIFF, T_I, var(w), elemAt(r.range(0, N))))); EP a = mk(ASSIGN, pt, var(w), elemAt(at = r.range(0, N))); expr(a); break; }
            case 2: if (at < N) expr(step(r.chance(1, 2), 1)); break;
            case 3: if (at > 0) expr(step(r.chance(1, 2), -1)); break;
            case 4: if (at < N && !v->rec) b->body.push_back(putn(what(step(true, r.chance(1, 2) || !at ? 1 : -1)))); break;
            case 5: if (at > 0 && !v->rec) { b->body.push_back(putn(what(step(false, -1)))); } break;
            case 6: { touched.clear(); if (at >= N || v->rec) break; EP x = gen(2); EP l = what(step(true, 1)); expr(mk(ASSIGN, v->t, l, x)); break; }
            case 7: { touched.clear(); if (at >= N) break; EP l = what(var(w)); expr(r.chance(1, 2) ? opAssign(l, 1) : mk(ASSIGN, l->t, l, gen(1))); break; }
            case 8: b->body.push_back(putn(mk(PDIFF, T_I, var(w), elemAt(r.range(0, N))))); break;
            case 9: { EP c = mk(r.pick({ (int)LT, (int)GT, (int)LE, (int)GE, (int)EQ, (int)NE }), T_I, var(w), elemAt(r.range(0, N))); SP s = ms(S_IF); s->a = c; s->body.push_back(putn(lit(r.range(0, 9)))); if (r.chance(1, 2)) s->body2.push_back(putn(lit(r.range(0, 9)))); b->body.push_back(s); break; }
            default: { // to the end
                SP s = ms(S_WLOOP); s->a = mk(r.chance(1, 2) ? NE : LT, T_I, var(w), elemAt(N)); SP q = ms(S_EXPR);
                EP x = var0(); if (v->rec) { q->a = mk(PRE, pt, var(w)); q->a->v = 1; s->body.push_back(putn(what(var(w)))); } else { EP p = mk(POST, pt, var(w)); p->v = 1; if (r.chance(1, 2)) { EP l = lval(0); if (!l) break; q->a = mk(OPASSIGN, l->t, l, mk(DEREF, v->t, p)); q->a->w = XOR; } else q->a = mk(ASSIGN, v->t, mk(DEREF, v->t, p), x); }
                s->body.push_back(q); b->body.push_back(s); at = N; break; }
            }
        }
        scope = save; return b;
    }
    string extra; // declarations for idioms
    // self-contained pieces of text whose output is worked out here
    int structs = 2; // the compiler has room for 8
    static int structDecls(const string& t) { int n = 0; for (size_t i = 0; (i = t.find('{', i)) != string::npos; ++i) { size_t l = t.find_last_of(";{}\n(", i ? i - 1 : 0); string h = t.substr(l == string::npos ? 0 : l + 1, i - (l == string::npos ? 0 : l + 1)); if (h.find("struct ") != string::npos || h.find("union ") != string::npos) ++n; } return n; }
    SP idiom() {
        for (;;) {
            size_t at = extra.size(); SP s = idiom1(); int n = structDecls(extra.substr(at)) + structDecls(s->s);
            if (structs + n <= 8) { structs += n; return s; }
            extra.resize(at);
        }
    }
    SP idiom1() {
        SP s = ms(S_TEXT); auto P = [&](long v) { s->prints.push_back((u16)v); }; int n = nameNo++;
        switch (r.below(34)) {
        case 33: { // static arrays and structures in functions and inner blocks, with other arrays behind them
            int a = r.range(2, 9), b = r.range(2, 9), k = r.range(0, a - 1), m = r.range(0, b - 1), v = r.range(-99, 99); bool inner = r.chance(1, 2), two = r.chance(1, 2); string dim = two ? sfmt("[2][%d]", a) : sfmt("[%d]", a), ix = two ? "[1]" : "";
            extra += sfmt("int sl%d(int i, int v) {\n", n) + (inner ? "if (i >= 0) {\n" : "") + sfmt("static int c;\nstatic %s t%s;\nchar l[%d];\nt%s[i] = v;\nl[0] = t%s[i];\nreturn ++c * 100 + l[0];\n", r.pick({ "int", "char", "unsigned" }), dim.c_str(), b, ix.c_str(), ix.c_str()) + (inner ? "}\nreturn -1;\n" : "") + "}\n";
            extra += sfmt("int sm%d(int i) {\nint l[%d][3];\nstatic char z[%d];\nl[i][2] = z[i] ^= 1;\nreturn l[i][2];\n}\n", n, b, b);
            s->s = sfmt("{\nint c0 = sl%d(%d, 0);\nchar x[%d];\nx[1] = sm%d(%d);\nputn(sl%d(%d, %d) - c0);\nputn(sl%d(%d, 1) - c0);\nputn(sm%d(%d) + x[1]);\n}\n", n, k, a + 3, n, m, n, k, v, n, k, n, m);
            P(100 + v); P(201); P(1); break; }
        case 31: { // ++ and -- of what a pointer, an index or a member addresses, with the value used
            int ty = r.range(0, 4), i = r.range(0, 2); static const char* tn[5] = { "int", "unsigned", "char", "unsigned char", "int*" };
            auto cv = [&](long v) -> long { switch (ty) { case 0: return (short)v; case 2: return (signed char)v; case 3: return (u8)v; default: return (u16)v; } };
            int sz = ty == 4 ? 2 : 1; extra += sfmt("struct IV%d { int h; %s v[3]; };\nstruct IV%d iv%d[2];\n", n, tn[ty], n, n);
            bool loc = r.chance(1, 2); long v[3]; string t = sfmt("{\nint i = %d;\nstruct IV%d* q = iv%d + 1;\n%s* p;\n", i, n, n, tn[ty]) + (loc ? sfmt("%s a[3];\np = a;\n", tn[ty]) : string("p = q->v;\n"));
            for (int k = 0; k < 3; ++k) { long x = cv(r.pick({ 0, 1, -1, 2, 127, 128, 255, 256, 32767, -32767, r.range(-900, 900) })); v[k] = ty == 4 ? (u16)x : x; t += sfmt("p[%d] = %s%ld;\n", k, ty == 4 ? "(int*)" : "", v[k] > 32767 ? v[k] - 65536 : v[k]); }
            int steps = r.range(2, 6); for (int k = 0; k < steps; ++k) {
                bool pre = r.chance(2, 3), inc = r.chance(1, 2); int w = (int)r.below(5); string l; int at;
                switch (w) { case 0: l = "*p"; at = 0; break; case 1: l = "p[i]"; at = i; break; case 2: at = r.range(0, 2); l = sfmt(loc ? "a[%d]" : "q->v[%d]", at); break; case 3: at = i; l = loc ? "*(a + i)" : sfmt("iv%d[1].v[i]", n); break; default: at = 2; l = "*(p + 2)"; }
                if (!pre && l[0] == '*') l = "(" + l + ")";
                long old = v[at]; v[at] = cv(old + (inc ? sz : -sz)); long val = pre ? v[at] : old; string e = pre ? (inc ? "++" : "--") + l : l + (inc ? "++" : "--");
                string c = ty == 4 ? "(int)" : "";
                switch (r.below(ty == 4 ? 2 : 5)) {
                case 0: t += "putn(" + (ty == 4 ? "(int)(" + e + ")" : e) + ");\n"; P(val); break;
                case 1: t += "if (" + e + ") putn(1); else putn(2);\n"; P(val ? 1 : 2); break;
                case 2: t += "i = i + (" + e + ");\nputn(i);\ni = " + sfmt("%d;\n", i); P(i + val); break;
                case 3: t += "putn((" + e + sfmt(") == %ld);\n", val > 32767 ? val - 65536 : val); P(1); break;
                default: t += "i = " + e + ";\nputn(i);\ni = " + sfmt("%d;\n", i); P(val);
                }
            }
            for (int k = 0; k < 3; ++k) { t += sfmt("putn(%sp[%d]);\n", ty == 4 ? "(int)" : "", k); P(v[k]); }
            s->s = t + "}\n"; break; }
        case 32: { // loops and branches with constant conditions
            int lim = r.range(1, 9), k = r.range(0, 3); const char* one = r.pick({ "1", "2 > 1", "!0", "-1", "1 || 0", "3 & 1" }); const char* zero = r.pick({ "0", "1 > 2", "!1", "3 & 4", "0 && 1" });
            bool c0 = strchr(one, '|') || strchr(zero, '&') ; (void)c0; if (strstr(one, "||")) one = "1"; if (strstr(zero, "&&")) zero = "0";
            static const char* loops[4] = { "do {\n%B} while (%1);\n", "while (%1) {\n%B}\n", "for (;%1;) {\n%B}\n", "for (;;) {\n%B}\n" };
            string L = loops[k]; size_t at = L.find("%1"); if (at != string::npos) L.replace(at, 2, one);
            L.replace(L.find("%B"), 2, sfmt("if (++i == %d) break;\nif (i & 1) continue;\nputn(i);\n", lim));
            extra += sfmt("int cl%d(int i) {\n", n) + L + sfmt("do {\n++i;\n} while (%s);\nwhile (%s) putn(77);\nfor (; %s; ) putn(78);\nif (%s) putn(i); else putn(79);\nif (%s) putn(80); else putn(i + 1);\nif (%s) putn(81);\nreturn i;\n}\n", zero, zero, zero, one, zero, zero);
            s->s = sfmt("putn(cl%d(0));\n", n); int i = 0; for (;;) { if (++i == lim) break; if (i & 1) continue; P(i); } ++i; P(i); P(i + 1); P(i); break; }
        case 30: { // a null pointer or a pointer, chosen by a condition
            int c = r.range(0, 1), a = r.range(-99, 99), b = r.range(-99, 99), k = r.range(0, 2); extra += sfmt("struct NP%d { int h; int v; struct NP%d* n; };\nstruct NP%d np%d[2];\nint na%d[3][4];\n", n, n, n, n, n);
            string C = c ? "c" : "!c"; auto q = [&](const string& x) { return r.chance(1, 2) ? "(" + C + " ? " + x + " : 0)" : "(" + string(c ? "!c" : "c") + " ? 0 : " + x + ")"; };
            s->s = sfmt("{\nint c = %d;\nint i = %d;\nstruct NP%d* p = np%d;\nint* w = na%d[1];\nconst char* t = \"hello\";\np->v = %d;\np[1].v = %d;\np->n = p + 1;\nna%d[1][i] = %d;\n", c, k, n, n, n, a, b, n, b)
                + sfmt("putn(%s->v);\nputn(%s->n->v);\nputn(%s->v);\n", q("p").c_str(), q("p").c_str(), q(sfmt("&np%d[1]", n)).c_str())
                + sfmt("putn(%s[i]);\nputn(*(%s + i));\nputn(*(%s + i));\nputn(%s[1]);\nputn(*%s);\n", q("w").c_str(), q(sfmt("na%d[1]", n)).c_str(), q(sfmt("&na%d[1][0]", n)).c_str(), q("t").c_str(), q("w++").c_str())
                + sfmt("w = %s + 1;\nputn(w - na%d[1]);\nputn(%s == 0);\n", q(sfmt("&na%d[1][1]", n)).c_str(), n, q("w").c_str()) + "na" + sfmt("%d[1][i] = 0;\n", n) + "}\n";
            P(a); P(b); P(b); P(b); P(b); P(b); P('e'); P(k ? 0 : b); P(2); P(0); break; }
        case 27: { // the value of a compound or simple assignment through a pointer
            int ty = r.range(0, 3), i = r.range(0, 2), j = r.range(0, 3 - i), op = r.range(0, 9), k = op >= 8 ? r.range(1, 90) : op >= 6 ? r.range(0, 7) : r.range(-300, 300), K = r.pick({ -1, -2, 5, 6, 4, 127, 128, 255, 256, -128, -32767, r.range(-900, 900) }), w = r.range(-9, 9); bool lit = r.chance(1, 2);
            static const char* tn[4] = { "int", "unsigned", "char", "unsigned char" }; static const char* ops[10] = { "+=", "-=", "*=", "^=", "|=", "&=", "<<=", ">>=", "/=", "%=" };
            auto cv = [&](long v) -> long { switch (ty) { case 0: return (short)v; case 1: return (u16)v; case 2: return (signed char)v; default: return (u8)v; } };
            auto ap = [&](long x) -> long { switch (op) { case 0: x += k; break; case 1: x -= k; break; case 2: x *= k; break; case 3: x ^= k; break; case 4: x |= k; break; case 5: x &= k; break; case 6: x *= 1l << k; break; case 7: x >>= k; break; case 8: x /= k; break; default: x %= k; } return cv(x); };
            long a[4]; string init; for (int q = 0; q < 4; ++q) { a[q] = cv(r.pick({ r.range(-32000, 32000), r.range(-130, 300), r.range(0, 9) })); init += sfmt("a[%d] = %ld;\n", q, a[q] > 32767 ? a[q] - 65536 : a[q]); }
            bool field = r.chance(1, 3); string kt = lit && op != 8 && op != 9 ? sfmt("%d", k) : string("k"); string one, two;
            if (field) { extra += sfmt("struct VA%d { int h; %s v[4]; };\nstruct VA%d va%d[2];\n", n, tn[ty], n, n); one = "q->v[i]"; two = "(q + 0)->v[i + j]"; size_t at = 0; while ((at = init.find("a[", at)) != string::npos) { init.replace(at, 2, "q->v["); at += 5; } }
            else { one = r.chance(1, 2) ? "*p" : "p[0]"; two = r.chance(1, 2) ? "p[j]" : "*(p + j)"; }
            s->s = sfmt("{\nint i = %d;\nint j = %d;\nint k = %d;\nint x;\nunsigned u;\n", i, j, k) + (field ? sfmt("struct VA%d* q = va%d + 1;\n%s* p;\n", n, n, tn[ty]) + init + "p = q->v + i;\n" : sfmt("%s a[4];\n%s* p;\n", tn[ty], tn[ty]) + init + "p = a + i;\n")
                + sfmt("putn(%s %s %s);\nputn((%s %s %s) + %d);\nx = *p++ %s %s;\nputn(x);\nputn((*p = %d) > 5);\nputn((u = %d) > 5);\nputn(5 < (u = %d));\n", one.c_str(), ops[op], kt.c_str(), two.c_str(), ops[op], kt.c_str(), w, ops[op], kt.c_str(), K, K, K);
            for (int q = 0; q < 4; ++q) s->s += field ? sfmt("putn(va%d[1].v[%d]);\n", n, q) : sfmt("putn(a[%d]);\n", q);
            s->s += "}\n";
            P(a[i] = ap(a[i])); a[i + j] = ap(a[i + j]); P(a[i + j] + w); P(a[i] = ap(a[i])); a[i + 1] = cv(K); P(a[i + 1] > 5); P((u16)K > 5); P((u16)K > 5); for (long v : a) P(v);
            break; }
        case 28: { // leaving loops and switches from blocks with variables, in a function with none of its own
            int m = r.range(1, 12), how = r.range(0, 12), kind = r.range(0, 2);
            if (kind == 0) {
                extra += sfmt("void bk%d(int n, int how) {\nwhile (n) {\nint t = n & 3;\nint u = t + how;\nswitch (t) {\ncase 0: putn(u); break;\ncase 1: {\nint q = t + 5;\nputn(q);\nif (how & 1) break;\n}\ndefault: putn(2);\n}\nif (n == how) break;\n{\nint z = n;\n--n;\nif (z & 1) continue;\nputn(z);\n}\n}\nputn(n);\n}\n", n);
                s->s = sfmt("bk%d(%d, %d);\n", n, m, how); int x = m; while (x) { int t = x & 3, u = t + how; if (t == 0) P(u); else { bool out = false; if (t == 1) { P(6); out = how & 1; } if (!out) P(2); } if (x == how) break; int z = x--; if (z & 1) continue; P(z); } P(x);
            } else if (kind == 1) {
                extra += sfmt("void bk%d(int n, int how) {\nfor (;;) {\nint a[3];\na[1] = n;\nif (n == how) goto out;\ndo {\nint v = a[1] - 1;\nint w = v;\na[1] = v;\nif (w == 2) continue;\nif (w < 1) break;\nputn(w);\n} while (a[1] > how);\nif (--n < 1) break;\n}\nputn(99);\nout:\nputn(n);\n}\n", n);
                s->s = sfmt("bk%d(%d, %d);\n", n, m, how); int x = m; bool go = false; for (;;) { int a = x; if (x == how) { go = true; break; } do { int v = a - 1; a = v; if (v == 2) continue; if (v < 1) break; P(v); } while (a > how); if (--x < 1) break; } if (!go) P(99); P(x);
            } else {
                extra += sfmt("void bk%d(int n, int how) {\nif (n) {\nint l = n * 2;\nwhile (1) {\nint t = l - how;\nswitch (t & 1) {\ncase 0: {\nint d = t;\nswitch (d & 6) {\ncase 2: putn(d); continue_%d: break;\ndefault: { int e = d + 1; if (e > 3) break; putn(e); }\n}\n}\nbreak;\ndefault: putn(7);\n}\nif ((l -= 3) < 0) break;\n}\n}\nputn(how);\n}\n", n, n);
                { size_t at = extra.rfind(sfmt(" continue_%d:", n)); extra.erase(at, sfmt(" continue_%d:", n).size()); }
                s->s = sfmt("bk%d(%d, %d);\n", n, m, how); int l = m * 2; while (1) { int t = l - how; if ((t & 1) == 0) { if ((t & 6) == 2) P(t); else if (t + 1 <= 3) P(t + 1); } else P(7); if ((l -= 3) < 0) break; } P(how);
            }
            break; }
        case 29: { // more labels on one statement than short jumps can span
            int g1 = r.range(20, 64), g2 = r.range(1, 30), st = r.pick({ 1, 3, -2, 257 }), from = r.range(-100, 100); auto lab = [&](int i) { return from + st * i; };
            string t = sfmt("int mc%d(int x) {\nint r = 0;\nswitch (x) {\n", n); for (int i = 0; i < g1; ++i) t += sfmt("case %d: ", lab(i)); t += "r = 1; break;\n"; for (int i = 0; i < g2; ++i) t += sfmt("case %d: ", lab(g1 + i)); t += r.chance(1, 2) ? "r = 2;\n}\n" : "r += 2;\n}\n"; t += "return r;\n}\n"; extra += t;
            for (int q = 0; q < 4; ++q) { int i = r.pick({ 0, 1, g1 - 1, g1, g1 + g2 - 1, g1 + g2, -1, (int)r.below((u32)(g1 + g2)), 24, 25, 26 }); s->s += sfmt("putn(mc%d(%d));\n", n, lab(i)); P(i < 0 || i >= g1 + g2 ? 0 : i < g1 ? 1 : 2); }
            break; }
        case 25: { // the value of an assignment is that of the variable
            int K = r.pick({ 127, 128, 255, 256, 300, 511, -1, -128, -129, 1000, 32767, r.range(-600, 600) }), gl = (int)r.below(2); string dl = sfmt("char vc%d;\nunsigned char vb%d;\nint vi%d;\nunsigned vu%d;\n", n, n, n, n); if (gl) extra += dl; long c = (signed char)K, b = (u8)K;
            s->s = string("{\n") + (gl ? "" : dl) + sfmt("int x;\nchar* p = &vc%d;\nx = (vc%d = %d);\nputn(x);\nx = vb%d = %d;\nputn(x);\nputn((vc%d = %d) + 1);\nif ((vb%d = %d) == %ld) putn(1);\nvi%d = vc%d = vu%d = %d;\nputn(vi%d);\nvu%d = vb%d = vi%d = %d;\nputn(vu%d);\nx = *p = %d;\nputn(x);\nputn(p[0] = %d);\nvi%d = x ? (vc%d = %d) : 5;\nputn(vi%d);\n}\n", n, n, K, n, K, n, K, n, K, b, n, n, n, K, n, n, n, n, K, n, K, K, n, n, K, n);
            P(c); P(b); P(c + 1); P(1); P(c); P(b); P(c); P(c); P(c ? c : 5); break; }
        case 0: { int a = r.range(0, 300), k = r.range(2, 5); extra += sfmt("enum E%d { ea%d = %d, eb%d, ec%d = eb%d * %d };\n", n, n, a, n, n, n, k); s->s = sfmt("{\nenum E%d e = ec%d;\nputn(e);\nputn(eb%d + e);\n}\n", n, n, n); P((a + 1) * k); P(a + 1 + (a + 1) * k); break; }
        case 1: { string t = alnum(r.range(1, 9)); s->s = sfmt("{\nconst char* q = \"%s\";\nwhile (*q) putn(*q++);\n}\n", t.c_str()); for (char c : t) P(c); break; }
        case 2: { int i = r.range(0, 7), j = r.range(0, 6), x = r.range(0, 999), y = r.range(0, 999); if (i == j) ++j; s->s = sfmt("{\nint m[8];\nint* pa[3];\nint** pp;\npa[0] = &m[%d];\npa[1] = m + %d;\npp = pa + 1;\n**pp = %d;\n*pp[-1] = %d;\nputn(*pa[1]);\nputn(m[%d]);\nputn(pa[1] - pa[0]);\nputn(*(*pp)++);\nputn(pa[1] - m);\n}\n", i, j, x, y, i); P(x); P(y); P(j - i); P(x); P(j + 1); break; }
        case 3: { int k = r.range(1, 5); extra += sfmt("struct N%d { int v; struct N%d* next; };\nstruct N%d nd%d[%d];\n", n, n, n, n, k); int a = r.range(1, 50), sum = 0; for (int i = 0; i < k; ++i) sum += i * a + 1;
            s->s = sfmt("{\nint i;\nint s = 0;\nstruct N%d* p;\nfor (i = 0; i < %d; ++i) {\nnd%d[i].v = i * %d + 1;\nnd%d[i].next = i < %d ? &nd%d[i + 1] : 0;\n}\nfor (p = nd%d; p; p = p->next) s += p->v;\nputn(s);\n}\n", n, k, n, a, n, k - 1, n, n); P(sum); break; }
        case 4: { extra += sfmt("int ack%d(int m, int n) {\n  if (m == 0) return n + 1;\n  if (n == 0) return ack%d(m - 1, 1);\n  return ack%d(m - 1, ack%d(m, n - 1));\n}\n", n, n, n, n); int m = r.range(0, 2), k = r.range(0, 3); s->s = sfmt("putn(ack%d(%d, %d));\n", n, m, k); P(m == 0 ? k + 1 : m == 1 ? k + 2 : 2 * k + 3); break; }
        case 5: { int lim = r.range(1, 5), br = r.range(1, 4), co = r.range(0, 3); s->s = sfmt("{\nint i = 0;\nint j;\nfor (;;) {\nif (++i > %d) break;\nfor (j = 0;; ++j) {\nif (j == %d) break;\nif (j == %d) continue;\nputn(i * 16 + j);\n}\nif (i == 2) continue;\nputn(i);\n}\n}\n", lim, br, co); for (int i = 1; i <= lim; ++i) { for (int j = 0; j < br; ++j) if (j != co) P(i * 16 + j); if (i != 2) P(i); } break; }
        case 6: { int len = r.range(60, 160), at = r.range(0, len - 1), v = r.range(0, 99); const char* ty = r.pick({ "int", "char", "unsigned char", "unsigned" }); s->s = sfmt("{\n%s big[%d];\nint far = %d;\nint i;\nfor (i = 0; i < %d; ++i) big[i] = i / 2;\nbig[%d] = far;\nfar = big[%d]++ + big[0];\nputn(far);\nputn(big[%d]);\nputn(big[%d]);\n}\n", ty, len, v, len, at, at, at, len - 1); P(v + (at ? 0 : v + 1)); if (!at) s->prints.back() = (u16)(v + v + 1); P(v + 1); P(len - 1 == at ? v + 1 : (len - 1) / 2); if (!at) { s->s = "putn(1);\n"; s->prints = { 1 }; } break; }
        case 7: { const char* ty = r.pick({ "int", "unsigned" }); int a = r.range(0, 30000); extra += sfmt("typedef %s ty%d;\ntypedef struct ST%d { ty%d x; char y; } TS%d;\nty%d tf%d(ty%d a, TS%d* p) {\n  ty%d l = a;\n  p->x = l + 1;\n  return p->x - 2;\n}\n", ty, n, n, n, n, n, n, n, n, n); s->s = sfmt("{\nTS%d t;\nTS%d* tp = &t;\nty%d v = tf%d(%d, tp);\nputn(v);\nputn(tp->x);\nputn((int)sizeof(TS%d) + (int)sizeof(ty%d));\n}\n", n, n, n, n, a, n, n); P(a - 1); P(a + 1); P(5); break; }
        case 8: { int a = r.range(0, 255), b = r.range(0, 127); s->s = sfmt("{\nunion { int a; unsigned char b[2]; } u;\nu.a = %d;\nputn(u.b[0]);\nputn(u.b[1]);\nu.b[0] = %d;\nputn(u.a);\n}\n", b * 256 + a, b); P(a); P(b); P(b * 256 + b); break; }
        case 9: { int v[7]; long sum = 0; string args; for (int i = 0; i < 7; ++i) { v[i] = r.range(0, 200); sum += (i + 1) * v[i]; args += sfmt("%s%d", i ? ", " : "", v[i]); } extra += sfmt("int many%d(int a, int b, int c, char d, int e, unsigned f, int g) { return a + b*2 + c*3 + (d & 255)*4 + e*5 + f*6 + g*7; }\n", n); s->s = sfmt("putn(many%d(%s));\n", n, args.c_str()); P(sum); break; }
        case 10: { int x = r.range(0, 6); s->s = sfmt("{\nint x = %d;\nif (x == 1) putn(1); else if (x == 2) putn(2); else if (x > 3) { putn(3); } else putn(4);\ndo putn(x); while (x-- > 3);\nputn(x);\n}\n", x); P(x == 1 ? 1 : x == 2 ? 2 : x > 3 ? 3 : 4); P(x); while (x-- > 3) P(x); P(x); break; }
        case 11: { extra += sfmt("int odd%d(int n);\nint even%d(int n) { return n == 0 ? 1 : odd%d(n - 1); }\nint odd%d(int n) { return n == 0 ? 0 : even%d(n - 1); }\n", n, n, n, n, n); int k = r.range(0, 12); s->s = sfmt("putn(even%d(%d));\n", n, k); P(k % 2 == 0); break; }
        case 12: { extra += sfmt("static int cnt%d;\nint bump%d(int by) { static int calls; ++calls; cnt%d += by; return calls * 256 + cnt%d; }\n", n, n, n, n); int a = r.range(0, 9), b = r.range(0, 9); s->s = sfmt("cnt%d = %d;\nputn(bump%d(%d) & 255);\nputn(cnt%d);\n", n, a, n, b, n); P(a + b); P(a + b); break; }
        case 13: { // pointers and integers on either side of + and -
            const char* ty = r.pick({ "int", "char", "unsigned", "struct PN%d" }); bool rec = ty[0] == 's'; string T = rec ? sfmt("struct PN%d", n) : ty; int a = r.range(3, 7), c = r.range(0, 3), k = r.range(0, 3), z = r.range(0, 7), cc = r.range(0, 7 - a + k);
            if (rec) extra += sfmt("struct PN%d { int v; char pad[%d]; };\n", n, r.range(1, 9)); const char* m = rec ? ".v" : ""; const char* ar = rec ? "->v" : "[0]";
            extra += sfmt("%s pm%d[8];\nint pv%d(%s* p) { return p%s; }\n", T.c_str(), n, n, T.c_str(), ar);
            s->s = sfmt("{\nint k = %d;\nint i;\n%s* p;\nfor (i = 0; i < 8; ++i) pm%d[i]%s = i * 3 + 1;\np = pm%d + %d;\nputn((p - %d)%s);\nputn(pv%d(p - k));\nputn((k + pm%d)%s);\nputn(pv%d(%d + pm%d));\nputn(pv%d(p - k + %d));\np = p - k - %d;\nputn(p - pm%d);\nputn(p%s);\nputn(pv%d(&pm%d[%d]));\nputn((k + k + p - k)%s);\n}\n", k, T.c_str(), n, m, n, a, c, ar, n, n, ar, n, z, n, n, cc, 0, n, ar, n, n, z, ar);
            auto V = [&](int i) { P(i * 3 + 1); }; V(a - c); V(a - k); V(k); V(z); V(a - k + cc); P(a - k); V(a - k); V(z); V(a); break; }
        case 14: { // large elements
            int pad = r.range(100, 300), v = r.range(0, 200); extra += sfmt("struct BG%d { char a[%d]; int v; };\nstruct BG%d bg%d[4];\n", n, pad, n, n);
            s->s = sfmt("{\nint i;\nstruct BG%d* p = bg%d;\nfor (i = 0; i < 4; ++i) bg%d[i].v = %d + i;\nputn(p++->v);\nputn(p->v);\nputn((++p)->v);\nputn(p-- - bg%d);\n--p;\nputn(p->v);\np += 3;\nputn(p->v);\np -= 2;\nputn(p->v);\nputn((int)sizeof(bg%d[0]) + (int)sizeof(struct BG%d));\n}\n", n, n, n, v, n, n, n);
            if (true) { string& t = s->s; size_t q = t.find("putn(p++->v);\n"); t.replace(q, 14, sfmt("putn(p->v);\np++;\n")); } P(v); P(v + 1); P(v + 2); P(2); P(v); P(v + 3); P(v + 1); P(2 * (pad + 2)); break; }
        case 15: { // values of structure assignments
            extra += sfmt("struct SC%d { int a; char b; int c[2]; };\nstruct SC%d sc%d[4];\nstruct SC%d sg%d;\n", n, n, n, n, n); int a = r.range(-500, 500), b = r.range(-100, 100), i = r.range(0, 3), j = r.range(0, 3); if (i == j) j = (j + 1) & 3;
            const char* rhs = r.pick({ "sg%d", "*q", "sc%d[j]", "l" }); bool fromG = rhs[1] == 'g', fromL = rhs[0] == 'l'; string R = rhs; size_t p = R.find("%d"); if (p != string::npos) R.replace(p, 2, sfmt("%d", n));
            const char* mid = r.pick({ "sc%d[i]", "*w", "l2" }); string M = mid; p = M.find("%d"); if (p != string::npos) M.replace(p, 2, sfmt("%d", n));
            (void)fromG; (void)fromL; s->s = sfmt("{\nint i = %d;\nint j = %d;\nstruct SC%d l;\nstruct SC%d l2;\nstruct SC%d* q = &sc%d[j];\nstruct SC%d* w = sc%d + i;\nstruct SC%d o;\nsg%d.a = %d;\nsg%d.b = %d;\nsg%d.c[1] = i;\n*q = l = sg%d;\no = %s = %s;\nputn(o.a);\nputn(o.b);\nputn(o.c[1]);\nputn((%s = %s).a);\nputn(%s.b);\n}\n", i, j, n, n, n, n, n, n, n, n, a, n, b, n, n, M.c_str(), R.c_str(), M.c_str(), R.c_str(), mid[0] == '*' ? "(*w)" : M.c_str());
            P(a); P(b); P(i); P(a); P(b); break; }
        case 16: { // nested structures, arrays in structures, two dimensions
            int x = r.range(0, 2), y = r.range(0, 3), v = r.range(-99, 999), u = r.range(-99, 99); extra += sfmt("struct IN%d { char t; int g[3][4]; };\nstruct OU%d { int h; struct IN%d in[2]; struct IN%d* lk; char e; };\nstruct OU%d ou%d;\n", n, n, n, n, n, n);
            s->s = sfmt("{\nint x = %d;\nint y = %d;\nstruct OU%d* o = &ou%d;\nint* row;\nou%d.in[1].g[x][y] = %d;\no->lk = &o->in[1];\no->in[0].t = %d;\no->e = 'z';\nrow = o->lk->g[x];\nputn(row[y]);\nputn(o->in[1].g[x][y]);\nputn(*(o->lk->g[x] + y));\nputn((int)(&o->lk->g[x][y] - &ou%d.in[1].g[0][0]));\nputn(ou%d.in[0].t);\nputn((o->lk - 1)->t);\nputn((int)sizeof(ou%d) + (int)sizeof o->in[0].g);\nputn(o->e);\n}\n", x, y, n, n, n, v, u, n, n, n);
            P(v); P(v); P(v); P(x * 4 + y); P(u); P(u); P(2 + 2 * 25 + 2 + 1 + 24); P('z'); break; }
        case 17: { // a switch with its default anywhere, negative and enumeration labels, shared bodies
            int A = -r.range(1, 300), B = r.range(0, 50), C = r.range(60, 30000), x = r.pick({ A, B, C, A - 1, B + 1, 0, -32768, 32767 }), w = r.range(0, 3); extra += sfmt("enum { sA%d = %d, sB%d = %d, sC%d = %d };\n", n, A, n, B, n, C);
            static const char* ord[4] = { "default: r = r + 1; case sA%d: r = r + 10; break; case sB%d: case sC%d: r = r + 100;", "case sA%d: r = r + 10; default: r = r + 1; break; case sB%d: case sC%d: r = r + 100;", "case sB%d: case sA%d: r = r + 10; break; case sC%d: r = r + 100; default: r = r + 1;", "case sC%d: default: r = r + 1; case sA%d: break; case sB%d: r = r + 10;" };
            s->s = sfmt("{\nint x = %d;\nint r = 5;\nwhile (r < 2000) {\nswitch (x) { ", x) + sfmt(ord[w], n, n, n) + sfmt(" }\nr = r + 1000;\n}\nputn(r);\n}\n"); long rr = 5;
            while (rr < 2000) { int k = x == A ? 0 : x == B ? 1 : x == C ? 2 : 3; switch (w) { case 0: if (k == 3) rr += 11; else if (k == 0) rr += 10; else rr += 100; break; case 1: if (k == 0) rr += 11; else if (k == 3) rr += 1; else rr += 100; break; case 2: if (k == 0 || k == 1) rr += 10; else if (k == 2) rr += 101; else rr += 1; break; default: if (k == 2 || k == 3) rr += 1; else if (k == 1) rr += 10; } rr += 1000; } P(rr); break; }
        case 18: { // the address chosen by a condition; assignment through it
            int c = r.range(0, 1), a = r.range(0, 99), b = r.range(0, 99), v = r.range(-999, 999); s->s = sfmt("{\nint c = %d;\nint a = %d;\nint b = %d;\nint* p;\n*(c ? &a : &b) = %d;\nputn(a);\nputn(b);\np = c ? 0 : &a;\nputn(p ? *p : -1);\nputn(c ? a : c ? 7 : b);\n}\n", c, a, b, v); P(c ? v : a); P(c ? b : v); P(c ? -1 : a); P(c ? v : v); break; }
        case 19: { // do, continue, comma, nested loops and early return
            int lim = r.range(1, 9), co = r.range(0, 9), rt = r.range(2, 30); extra += sfmt("int dw%d(int lim, int co) {\nint i = 0, s = 0;\ndo {\nif (i == co) continue;\ns += i;\nif (s > %d) return -s;\n} while (++i < lim);\nreturn s;\n}\n", n, rt);
            { size_t q = extra.rfind("int i = 0, s = 0;"); extra.replace(q, 17, "int i = 0;\nint s = 0;"); } s->s = sfmt("{\nint a;\nint b;\nputn(dw%d(%d, %d));\nfor (a = 0, b = %d; a < b; a++, b--) ;\nputn(a * 16 + b);\nputn((a = 3, b = a + 1, a * b));\n}\n", n, lim, co, lim);
            { int i = 0, q = 0; bool ret = false; do { if (i == co) continue; q += i; if (q > rt) { ret = true; break; } } while (++i < lim); P(ret ? -q : q); } { int a = 0, b = lim; for (; a < b; a++, b--); P(a * 16 + b); } P(12); break; }
        case 20: { // initialised and zeroed globals of every kind
            int v = r.range(-30000, 30000), c = r.range(-128, 127); unsigned u = r.range(0, 65535) ; string t = alnum(r.range(1, 12)); if (u > 32767) u -= 32768;
            extra += sfmt("int gi%d = %d;\nint gz%d;\nunsigned gu%d = %u;\nchar gc%d = %d;\nconst char gs%d[] = \"%s\";\nchar gn%d[7];\nint gm%d = sizeof(gs%d);\nint gl%d;\n", n, v, n, n, u, n, c, n, t.c_str(), n, n, n, n);
            { size_t q = extra.rfind("int gm"); size_t e = extra.find('\n', q); extra.erase(q, e - q + 1); } s->s = sfmt("{\nint i;\nint z = 0;\nputn(gi%d);\nputn(gu%d);\nputn(gc%d);\nputn((int)sizeof(gs%d));\nputn(gs%d[%d]);\nfor (i = 0; i < 7; ++i) z |= gn%d[i];\nputn(z + gz%d + gl%d);\ngz%d = gi%d;\ngl%d = 3;\nputn(gz%d);\ngz%d = 0;\ngl%d = 0;\n}\n", n, n, n, n, n, r.range(0, (int)t.size()), n, n, n, n, n, n, n, n, n);
            int at = 0; { size_t q = s->s.find(sfmt("gs%d[", n)); q = s->s.find('[', q); at = atoi(s->s.c_str() + q + 1); } P(v); P((long)u); P(c); P((long)t.size() + 1); P(at < (int)t.size() ? t[at] : 0); P(0); P(v); break; }
        case 21: { // literals indexed, escapes, adjacent conversions
            string t = alnum(r.range(2, 9)); int i = r.range(0, (int)t.size() - 1), k = r.range(1, 9); s->s = sfmt("{\nint i = %d;\nconst char* q = \"%s\" + %d;\nputn(\"%s\"[i]);\nputn(*q);\nputn((int)sizeof(\"%s\\n\"));\nputn(\"\\n\\t\\\\\\\"\\'\\r\"[%d]);\nputn(q[-%d]);\n}\n", i, t.c_str(), i, t.c_str(), t.c_str(), k % 6, i); P(t[i]); P(t[i]); P((long)t.size() + 2); P("\n\t\\\"\'\r"[k % 6]); P(t[0]); break; }
        case 22: { // recursion with arrays on the stack and addresses of locals
            int d = r.range(1, 8), a = r.range(1, 30); extra += sfmt("int rl%d(int d, int* up) {\nint l[5];\nl[d %% 5] = d * %d;\nif (up) *up += d;\nif (d == 0) return up ? *up : 0;\nl[(d + 1) %% 5] = rl%d(d - 1, &l[d %% 5]);\nreturn l[d %% 5] + l[(d + 1) %% 5];\n}\n", n, a, n);
            std::function<long(int, long*)> f = [&](int dd, long* up) -> long { long l[5] = { 0 }; l[dd % 5] = dd * a; if (up) *up += dd; if (dd == 0) return up ? *up : 0; long v = f(dd - 1, &l[dd % 5]); l[(dd + 1) % 5] = v; return l[dd % 5] + l[(dd + 1) % 5]; };
            s->s = sfmt("putn(rl%d(%d, 0));\n", n, d); P(f(d, nullptr)); break; }
        case 23: { // calls through pointers kept in a table and in a structure
            int a = r.range(-200, 200), b = r.range(-200, 200), i = r.range(0, 1); extra += sfmt("int fa%d(int a, int b) { return a + b; }\nint fs%d(int a, int b) { return a - b; }\n", n, n);
            s->s = sfmt("{\nint (*f)(int, int) = %s;\nputn(f(%d, %d));\nf = fs%d;\nputn((*f)(%d, %d) + f(1, 2));\nputn(fa%d(f(%d, 1), f(fa%d(%d, 2), 3)));\n}\n", sfmt(i ? "fa%d" : "&fa%d", n).c_str(), a, b, n, a, b, n, a, n, b); P(a + b); P(a - b - 1); P(a - 1 + b - 1); break; }
        case 24: { // compound assignment to narrow and unsigned variables, also through pointers
            int a = r.range(-128, 127), k = r.range(-300, 300), sh = r.range(0, 7); unsigned u = r.range(0, 65535); int op = (int)r.below(8); static const char* ops[8] = { "+=", "-=", "*=", "^=", "|=", "&=", "<<=", ">>=" };
            auto ap = [&](long x) -> long { switch (op) { case 0: return x + k; case 1: return x - k; case 2: return x * k; case 3: return x ^ k; case 4: return x | k; case 5: return x & k; case 6: return x << sh; default: return x >> sh; } };
            s->s = sfmt("{\nint k = %d;\nchar c = %d;\nunsigned char b = %d;\nunsigned u = %d;\nchar* p = &c;\nunsigned* w = &u;\nint v = %d;\nint* q = &v;\n*p %s k;\nb %s k;\n*w %s k;\n*q %s k;\nputn(c);\nputn(b);\nputn(u);\nputn(v);\n}\n", op >= 6 ? sh : k, a, a & 255, (int)(short)u, (int)(short)(u ^ 0x5A5A), ops[op], ops[op], ops[op], ops[op]);
            P((signed char)ap(a)); P((u8)ap(a & 255)); P((u16)ap(u)); P((u16)ap((short)(u ^ 0x5A5A))); break; }
        default: { extra += sfmt("int say%d(int x) { putn(x); return x; }\n", n); int a = r.range(0, 1), b = r.range(0, 1), c = r.range(0, 1); const char* f = r.chance(1, 2) ? "%d"  : "%d"; (void)f;
            bool first = r.chance(1, 2); s->s = first ? sfmt("if (say%d(%d) || say%d(%d) && say%d(%d)) putn(9);\n", n, a, n, b, n, c) : sfmt("putn((say%d(%d) && say%d(%d) || say%d(%d)) + 0);\n", n, a, n, b, n, c);
            if (first) { P(a); bool t = a; if (!a) { P(b); if (b) { P(c); t = c; } } if (t) P(9); } else { P(a); bool t = false; if (a) { P(b); t = b; } if (!t) { P(c); t = c; } P(t); } break; }
        }
        return s;
    }
    string alnum(int n) { string t; while (n--) t += (char)('a' + r.below(26)); return t; }
    SP stmt(int d, int loop) {
        touched.clear();
        switch (r.below(d > 0 ? 38 : 17)) {
        case 0: case 1: case 2: { SP s = ms(S_EXPR); EP l = lval(1); if (!l) return nullptr; EP x = gen(2); s->a = mk(ASSIGN, l->t, l, x); return s; }
        case 3: case 4: { SP s = ms(S_EXPR); EP l = lval(1); if (!l) return nullptr; s->a = opAssign(l, 1); return s; }
        case 5: { SP s = ms(S_EXPR); EP l = lval(1); if (!l) return nullptr; s->a = mk(r.chance(1, 2) ? PRE : POST, l->t, l); s->a->v = r.chance(1, 2) ? 1 : -1; return s; }
        case 6: { SP s = ms(S_EXPR); s->a = side(2); return s->a->op >= ASSIGN ? s : nullptr; }
        case 7: case 8: return putn(gen(3));
        case 9: { SP s = ms(S_PUTS); s->s = word(); return s; }
        case 10: { SP s = ms(S_PUTC); EP x = gen(1); if (konst(x)) x = var0(); s->a = mk(ADD, T_I, lit('A'), mk(AND, prom(x->t), x, lit(15))); s->a->t = prom(x->t); return s; }
        case 11: { VP p = pick([](const Var& x) { return x.t >= T_P && !x.n && !x.konst; }); if (!p) return nullptr; SP s = ms(S_EXPR); s->a = mk(ASSIGN, p->t, var(p), ptrTo(p->t, 1)); if (s->a->b->op == VAR && s->a->b->var == p) return nullptr; return s; }
        case 12: { SP s = ms(S_RECCOPY); bool p, q; s->a = recBase(0, &p); if (!s->a) return nullptr; s->b = recBase(0, &q); if (!s->b) return nullptr; s->v = p | q << 1; return s; }
        case 13: { if (noCall) return nullptr; vector<Fn*> c; for (int i = 0; i < callable; ++i) if (fns[i]->ret == T_V) c.push_back(fns[i].get()); if (c.empty()) return nullptr; SP s = ms(S_EXPR); EP e = mk(CALL, T_V); e->fn = c[r.below((u32)c.size())]; for (auto& p : e->fn->par) e->args.push_back(isPtr(p->t) ? ptrTo(p->t, 1) : gen(1)); s->a = e; return s; }
        case 14: if (loop) { SP s = ms(S_IF); s->a = cond(1); SP b = ms(loop == 1 ? r.pick({ (int)S_BREAK, (int)S_CONTINUE }) : (int)S_BREAK); s->body.push_back(b); if (r.chance(1, 4)) s->body.push_back(dead()); return s; } return nullptr;
        case 15: { VP f = pick([](const Var& x) { return x.fptr; }); vector<Fn*> c; for (int i = 0; i < callable; ++i) if (fns[i]->sig) c.push_back(fns[i].get()); if (!f || c.empty()) return nullptr; SP s = ms(S_SETFP); s->vars.push_back(f); s->fn = c[r.below((u32)c.size())]; return s; }
        case 16: { SP s = ms(S_EMPTY); return s; }
        case 17: case 18: case 19: case 20: {
            SP s = ms(S_IF); s->a = cond(2); s->body = scoped(r.range(1, 2), d - 1, loop);
            if (r.chance(1, 2)) s->body2 = scoped(r.range(1, 2), d - 1, loop);
            if (s->body.size() == 1 && (s->body[0]->op == S_EXPR || s->body[0]->op == S_PUTN || s->body[0]->op == S_PUTS || s->body[0]->op == S_PUTC || s->body[0]->op == S_EMPTY) && r.chance(1, 3)) s->braces = false;
            return s;
        }
        case 21: case 22: case 23: case 24: { // loops with a counter of their own; the body may leave or continue early
            SP s = ms(r.pick({ (int)S_FOR, (int)S_FOR, (int)S_WHILE, (int)S_DO })); s->v = r.range(1, 5);
            auto k = std::make_shared<Var>(); k->name = sfmt("k%d", loops++); k->konst = true; k->addr = cur->frame; cur->frame += 2; s->vars.push_back(k);
            auto save = scope; scope.push_back(k); s->body = scoped(r.range(1, 3), d - 1, 1); scope = save;
            return s;
        }
        case 25: case 26: {
            SP s = ms(S_SWITCH); EP x = gen(1); if (konst(x)) x = var0(); s->a = r.chance(2, 3) ? mk(AND, prom(x->t), x, lit(7)) : x;
            int n = r.range(1, 5); std::set<int> used; s->v = -1;
            for (int i = 0; i < n; ++i) { int c = r.chance(1, 6) ? r.pick({ 255, -1, 100, 1000, 32767 }) : (int)r.below(8); if (!used.insert(c).second) continue; s->cases.push_back(c); auto b = scoped(r.below(3), 0, loop == 1 ? 1 : 2); if (r.chance(2, 3)) b.push_back(ms(S_BREAK)); s->cb.push_back(b); }
            if (r.chance(2, 3)) { s->v = (int)r.below((u32)s->cases.size() + 1); s->body = scoped(1, 0, loop == 1 ? 1 : 2); if (r.chance(1, 2)) s->body.push_back(ms(S_BREAK)); }
            return s;
        }
        case 27: { SP s = ms(S_BLOCK); s->body = scoped(r.range(1, 3), d - 1, loop); return s; }
        case 28: case 29: case 30: return decl(1);
        case 31: { // goto over something
            if (labelNo >= 6) return nullptr;
            SP b = ms(S_BLOCK); int l = labelNo++; SP g = ms(S_GOTO); g->v = l;
            SP i = ms(S_IF); i->a = cond(1); i->body.push_back(g); if (r.chance(1, 2)) b->body.push_back(i); else b->body.push_back(g);
            auto in = scoped(r.range(1, 2), 0, loop); vector<SP> in2; for (auto& x : in) if (x->op != S_DECL) in2.push_back(x);
            bool hadDecl = in2.size() != in.size(); if (!hadDecl) for (auto& x : in2) b->body.push_back(x);
            SP lb = ms(S_LABEL); lb->v = l; b->body.push_back(lb); b->v = 1;
            return b;
        }
        case 32: return dead();
        case 33: case 34: return walk();
        case 35: case 36: return idiom();
        default: { if (cur->ret == T_V || loop == 3) return nullptr; SP s = ms(S_IF); s->a = cond(1); SP q = ms(S_RETURN); q->a = full(1); s->body.push_back(q); return s; }
        }
    }
    SP dead() { // code that is never reached
        SP s = ms(r.chance(1, 2) ? S_IF : S_WHILE); s->a = lit(0); s->v = -1; // while (0)
        SP x = putn(var0()); s->body.push_back(x); return s;
    }
    vector<SP> scoped(int n, int d, int loop) { auto save = scope; auto sn = blockNames; blockNames.clear(); auto b = block(n, d, loop); scope = save; blockNames = sn; return b; }
    VP global(const string& n, int t, int cnt = 0, int m = 0, bool rec = false) {
        auto v = std::make_shared<Var>(); v->name = n; v->t = t; v->n = cnt; v->m = m; v->rec = rec; v->global = true; v->addr = galloc;
        galloc += rec ? RECSIZE * (cnt ? cnt : 1) : sizeOf(t) * (cnt ? cnt : 1) * (m ? m : 1); globals.push_back(v); return v;
    }
    // ------------------------------------------------------------ printing
    string sp() { return style > 0 ? ows(r, style) : string(); }
    static int prec(const EP& e) {
        switch (e->op) {
        case MUL: case DIV: case MOD: return 3; case ADD: case SUB: case PADD: case PDIFF: return 4; case SHL: case SHR: return 5; case LT: case GT: case LE: case GE: return 6; case EQ: case NE: return 7;
        case AND: return 8; case XOR: return 9; case OR: return 10; case LAND: return 11; case LOR: return 12; case COND: return 13; case ASSIGN: case OPASSIGN: return 14; case COMMA: return 15;
        case NEG: case INV: case NOT: case ADDR: case DEREF: case PRE: case CAST: return 2; default: return 1;
        }
    }
    static const char* opText(int op) {
        static const char* t[] = { "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", ">", "<=", ">=", "==", "!=", "&&", "||" };
        return t[op - ADD];
    }
    string sub(const EP& e, int max) { string t = tx(e); if (prec(e) > max || (e->op == NUM && e->v < 0 && t[0] != '(') || r.chance(1, 8)) return "(" + t + ")"; return t; }
    // not as a comparison: the compiler rejects those as operands of some operators
    string num1(const EP& e, int max) {
        EP x = e; while (x->op == COMMA) x = x->b;
        if (isBool(x) || x->op == COND) return "(" + sub(e, 4) + "+0)";
        return sub(e, max);
    }
    static const char* tyName(int t) { switch (t) { case T_I: return "int"; case T_U: return "unsigned"; case T_C: return "char"; case T_UC: return "unsigned char"; case T_V: return "void"; case T_PR: return "struct Rec*"; } static const char* p[] = { "int*", "unsigned*", "char*", "unsigned char*" }; return p[t - T_P]; }
    string tx(const EP& e) {
        switch (e->op) {
        case NUM: return num(r, (int)e->v, style);
        case VAR: return e->var->name;
        case IDX: return e->a->var->name + "[" + sp() + tx(e->b) + "]";
        case IDX2: return e->a->var->name + "[" + tx(e->b) + "][" + tx(e->c) + "]";
        case DEREF: return "*" + sub(e->a, 2);
        case FLD: { string t = e->w ? tx(e->a) + "->" : tx(e->a) + "."; t += fields[e->v].n; if (e->b) t += "[" + tx(e->b) + "]"; return t; }
        case ADDR: return "&" + sub(e->a, 1);
        case NEG: return "-" + (e->a->op == NEG || e->a->op == PRE || e->a->op == NUM ? "(" + tx(e->a) + ")" : num1(e->a, 2));
        case INV: return "~" + num1(e->a, 2);
        case NOT: return "!" + sub(e->a, 2);
        case CAST: return string("(") + tyName(e->t) + ")" + num1(e->a, 2);
        case PADD: return sub(e->a, 4) + " + " + sub(e->b, 3);
        case PDIFF: return sub(e->a, 4) + " - " + sub(e->b, 3);
        case COND: return sub(e->a, 12) + " ?" + sp() + " " + sub(e->b, 12) + " : " + sub(e->c, 12);
        case COMMA: return sub(e->a, 14) + sp() + ", " + sub(e->b, 14);
        case ASSIGN: return sub(e->a, 2) + sp() + " = " + sp() + sub(e->b, 14);
        case OPASSIGN: return sub(e->a, 2) + " " + opText(e->w) + "= " + sp() + num1(e->b, 14);
        case PRE: return string(e->v > 0 ? "++" : "--") + sub(e->a, 2);
        case POST: return sub(e->a, 1) + (e->v > 0 ? "++" : "--");
        case CALL: case CALLP: { string t = (e->op == CALL ? e->fn->name : e->var->name) + "("; for (size_t i = 0; i < e->args.size(); ++i) t += (i ? sp() + ", " : string()) + sub(e->args[i], 14); return t + ")"; }
        case STR: return sfmt("txt%ld[", e->v) + tx(e->a) + "]";
        }
        int p = prec(e);
        return sub(e->a, p) + " " + opText(e->op) + (e->op == DIV ? " " : "") + sp() + " " + sub(e->b, p - 1);
    }
    string ind; 
    string txB(const vector<SP>& b) { string t; for (auto& s : b) t += txS(s); return t; }
    string txS(const SP& s) {
        string i = ind; auto blk = [&](const vector<SP>& b) { ind += "  "; string t = txB(b); ind = i; return t; };
        switch (s->op) {
        case S_EXPR: return i + tx(s->a) + sp() + ";\n";
        case S_IF: if (!s->braces) { string t = i + "if (" + tx(s->a) + ")\n" + blk(s->body); if (!s->body2.empty()) t += i + "else {\n" + blk(s->body2) + i + "}\n"; return t; }
            { string t = i + "if" + sp() + " (" + tx(s->a) + ") {\n" + blk(s->body) + i + "}"; if (!s->body2.empty()) t += " else {\n" + blk(s->body2) + i + "}"; return t + "\n"; }
        case S_WHILE: if (s->v < 0) return i + "while (" + tx(s->a) + ") {\n" + blk(s->body) + i + "}\n";
            return i + sfmt("%s = %d;\n", s->vars[0]->name.c_str(), s->v) + i + sfmt("while (%s--) {\n", s->vars[0]->name.c_str()) + blk(s->body) + i + "}\n";
        case S_DO: return i + sfmt("%s = 0;\n", s->vars[0]->name.c_str()) + i + "do {\n" + blk(s->body) + i + sfmt("} while (++%s < %d);\n", s->vars[0]->name.c_str(), s->v);
        case S_FOR: return i + sfmt("for (%s = 0; %s < %d; %s) {\n", s->vars[0]->name.c_str(), s->vars[0]->name.c_str(), s->v, (r.chance(1, 2) ? "++" + s->vars[0]->name : s->vars[0]->name + "++").c_str()) + blk(s->body) + i + "}\n";
        case S_SWITCH: {
            string t = i + "switch (" + tx(s->a) + ") {\n";
            for (size_t k = 0; k <= s->cases.size(); ++k) {
                if ((int)k == s->v) t += i + "default:\n" + blk(s->body);
                if (k < s->cases.size()) t += i + "case " + num(r, s->cases[k], style) + ":\n" + (s->cb[k].size() && s->cb[k][0]->op == S_DECL ? i + "{\n" + blk(s->cb[k]) + i + "}\n" : blk(s->cb[k]));
            }
            return t + i + ";\n" + i + "}\n";
        }
        case S_BREAK: return i + "break;\n"; case S_CONTINUE: return i + "continue;\n";
        case S_RETURN: return i + (s->a ? "return " + tx(s->a) + ";\n" : "return;\n");
        case S_BLOCK: return i + "{\n" + blk(s->body) + i + "}\n";
        case S_DECL: { string t = i + tyName(s->vars[0]->t); for (size_t k = 0; k < s->vars.size(); ++k) t += (k ? ", " : " ") + s->vars[k]->name + sp() + " = " + sub(s->inits[k], 14); return t + ";\n"; }
        case S_GOTO: return i + sfmt("goto lab%d;\n", s->v); case S_LABEL: return sfmt("lab%d:;\n", s->v);
        case S_PUTN: return i + "putn(" + sub(s->a, 14) + ");\n";
        case S_PUTC: return i + "putchar(" + tx(s->a) + ");\n";
        case S_PUTS: return i + (lib ? "PutStr(" : "putstr(") + strLit(r, s->s + "\n", style) + ");\n";
        case S_RECCOPY: return i + (s->v & 1 ? "*" + tx(s->a) : tx(s->a)) + " = " + (s->v & 2 ? "*" + tx(s->b) : tx(s->b)) + ";\n";
        case S_EMPTY: return i + ";\n";
        case S_SETFP: return i + s->vars[0]->name + " = " + s->fn->name + ";\n";
        case S_RAW: return s->s;
        case S_WLOOP: return i + "while (" + tx(s->a) + ") {\n" + blk(s->body) + i + "}\n";
        case S_TEXT: { string t; size_t p = 0; while (p < s->s.size()) { size_t q = s->s.find('\n', p); t += i + s->s.substr(p, q - p + 1); p = q + 1; } return t; }
        }
        return "";
    }
    // ------------------------------------------------------------ execution
    u8 mem[65536]; int bp = 0, stackTop = 0x4000; map<int, Fn*> fpVal; long steps = 0; string out; bool tooLong = false;
    struct Frame { Fn* f; int base; vector<u16> va; };
    vector<Frame> frames; u16 retv = 0;
    u16 ld(int t, u16 a) { if (t == T_C) return (u16)(int16_t)(signed char)mem[a]; if (t == T_UC) return mem[a]; return (u16)(mem[a] | mem[(u16)(a + 1)] << 8); }
    void st(int t, u16 a, u16 v) { mem[a] = (u8)v; if (sizeOf(t) == 2) mem[(u16)(a + 1)] = (u8)(v >> 8); }
    u16 conv(int t, u16 v) { return t == T_C ? (u16)(int16_t)(signed char)v : t == T_UC ? (u8)v : v; }
    u16 varAddr(const VP& v) { return (u16)(v->global ? v->addr : frames.back().base + v->addr); }
    int elem(const EP& a) { return a->var && a->var->rec ? RECSIZE : isPtr(a->var->t) && !a->var->n ? (a->var->t == T_PR ? RECSIZE : sizeOf(a->var->t - T_P)) : sizeOf(a->var->t); }
    u16 addr(const EP& e) {
        switch (e->op) {
        case VAR: return varAddr(e->var);
        case IDX: { u16 base = e->a->var->n ? varAddr(e->a->var) : ld(T_I, varAddr(e->a->var)); u16 i = ev(e->b); if (e->w) return (u16)(base + i * 4 * sizeOf(e->a->var->t)); return (u16)(base + i * elem(e->a)); }
        case IDX2: { u16 i = ev(e->b), j = ev(e->c); return (u16)(varAddr(e->a->var) + (i * 4 + j) * sizeOf(e->a->var->t)); }
        case DEREF: return ev(e->a);
        case FLD: { u16 b = e->w ? ev(e->a) : addr(e->a); b = (u16)(b + fields[e->v].off); if (e->b) b = (u16)(b + ev(e->b) * sizeOf(fields[e->v].t)); return b; }
        }
        abort();
    }
    static u16 bin(int op, int t, u16 a, u16 b) {
        int16_t x = (int16_t)a, y = (int16_t)b; bool u = t == T_U;
        switch (op) {
        case ADD: return (u16)(a + b); case SUB: return (u16)(a - b); case MUL: return (u16)(a * b);
        case DIV: if (!b) return 0; return u ? (u16)(a / b) : (u16)(x / y); case MOD: if (!b) return 0; return u ? (u16)(a % b) : (u16)(x % y);
        case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
        case SHL: return (u16)(a << (b & 15)); case SHR: return u ? (u16)(a >> (b & 15)) : (u16)(x >> (b & 15));
        case LT: return u ? a < b : x < y; case GT: return u ? a > b : x > y; case LE: return u ? a <= b : x <= y; case GE: return u ? a >= b : x >= y; case EQ: return a == b; case NE: return a != b;
        }
        abort();
    }
    static int psize(int t) { return t == T_PR ? RECSIZE : sizeOf(t - T_P); }
    u16 ev(const EP& e) {
        if (++steps > 60000 || frames.size() > 40) { tooLong = true; return 0; }
        if (tooLong) return 0;
        switch (e->op) {
        case NUM: return (u16)e->v;
        case VAR: if (e->w) return varAddr(e->var); return ld(e->t, varAddr(e->var));
        case IDX: if (e->w) return addr(e); return ld(e->t, addr(e));
        case IDX2: case DEREF: case FLD: return ld(e->t, addr(e));
        case ADDR: return addr(e->a);
        case NEG: return (u16)-ev(e->a); case INV: return (u16)~ev(e->a); case NOT: return !ev(e->a);
        case LAND: return ev(e->a) ? ev(e->b) != 0 : 0; case LOR: return ev(e->a) ? 1 : ev(e->b) != 0;
        case COND: return ev(e->a) ? ev(e->b) : ev(e->c);
        case COMMA: ev(e->a); return ev(e->b);
        case CAST: return conv(e->t, ev(e->a));
        case STR: return (u16)(int16_t)(signed char)strs[e->v][ev(e->a) & 7];
        case PADD: { u16 a = ev(e->a), b = ev(e->b); return (u16)(a + b * psize(e->t)); }
        case PDIFF: { u16 a = ev(e->a), b = ev(e->b); return (u16)((int16_t)(a - b) / psize(e->a->t)); }
        case ASSIGN: { u16 a = addr(e->a), v = ev(e->b); st(e->a->t, a, v); return conv(e->a->t, v); }
        case OPASSIGN: {
            if (isPtr(e->a->t)) { u16 a = addr(e->a), v = (u16)(ev(e->b) * psize(e->a->t)); v = (u16)(e->w == ADD ? ld(T_I, a) + v : ld(T_I, a) - v); st(T_I, a, v); return v; }
            u16 a = addr(e->a), v = ev(e->b); int t = e->w == SHL || e->w == SHR ? prom(e->a->t) : arith(e->a->t, e->b->t);
            v = bin(e->w, t, ld(e->a->t, a), v); st(e->a->t, a, v); return conv(e->a->t, v);
        }
        case PRE: case POST: { u16 a = addr(e->a), o = ld(e->a->t, a), v = (u16)(o + e->v * (isPtr(e->a->t) ? psize(e->a->t) : 1)); st(e->a->t, a, v); return e->op == PRE ? conv(e->a->t, v) : o; }
        case CALL: { vector<u16> v; for (auto& a : e->args) v.push_back(ev(a)); return conv(e->fn->ret, callFn(e->fn, v)); }
        case CALLP: { Fn* f = fpVal[varAddr(e->var)]; vector<u16> v; for (auto& a : e->args) v.push_back(ev(a)); return callFn(f, v); }
        }
        u16 a = ev(e->a), b = ev(e->b);
        int t = e->op == SHL || e->op == SHR ? prom(e->a->t) : arith(e->a->t, e->b->t);
        return bin(e->op, t, a, b);
    }
    u16 callFn(Fn* f, const vector<u16>& a) {
        if (frames.size() > 40 || !f) { tooLong = true; return 0; }
        if (f->variadic) { u16 s = 0; for (size_t i = 1; i < a.size(); ++i) s = (u16)(s * 3 + a[i]); return s; }
        int base = frames.empty() ? 0x4000 : frames.back().base + frames.back().f->frame;
        frames.push_back({ f, base, {} });
        for (size_t i = 0; i < f->par.size(); ++i) st(f->par[i]->t, (u16)(base + f->par[i]->addr), a[i]);
        retv = 0; run(f->body); u16 v = retv; frames.pop_back(); return v;
    }
    enum { R_NORM, R_BREAK, R_CONT, R_RET, R_GOTO = 100 };
    int run(const vector<SP>& b) {
        for (size_t i = 0; i < b.size(); ++i) {
            int k = run(b[i]); if (tooLong) return R_RET;
            if (k >= R_GOTO) { bool f = false; for (size_t j = 0; j < b.size(); ++j) if (b[j]->op == S_LABEL && b[j]->v == k - R_GOTO) { i = j; f = true; break; } if (f) continue; }
            if (k != R_NORM) return k;
        }
        return R_NORM;
    }
    void pn(u16 n) { for (int i = 12; i >= 0; i -= 4) out += "0123456789abcdef"[(n >> i) & 15]; out += ' '; }
    int run(const SP& s) {
        if (++steps > 60000) { tooLong = true; return R_RET; }
        auto loopEnd = [](int k, bool* stop) { *stop = false; if (k == R_BREAK) { *stop = true; return (int)R_NORM; } if (k == R_CONT || k == R_NORM) return (int)R_NORM; *stop = true; return k; };
        bool stop; int k;
        switch (s->op) {
        case S_EXPR: ev(s->a); break;
        case S_IF: return ev(s->a) ? run(s->body) : run(s->body2);
        case S_WHILE: if (s->v < 0) break; { u16 a = varAddr(s->vars[0]); st(T_I, a, (u16)s->v); for (;;) { u16 v = ld(T_I, a); st(T_I, a, (u16)(v - 1)); if (!v) break; k = loopEnd(run(s->body), &stop); if (stop) return k; } break; }
        case S_FOR: { u16 a = varAddr(s->vars[0]); st(T_I, a, 0); for (; (int16_t)ld(T_I, a) < s->v; st(T_I, a, (u16)(ld(T_I, a) + 1))) { k = loopEnd(run(s->body), &stop); if (stop) return k; } break; }
        case S_DO: { u16 a = varAddr(s->vars[0]); st(T_I, a, 0); do { k = loopEnd(run(s->body), &stop); if (stop) return k; st(T_I, a, (u16)(ld(T_I, a) + 1)); } while ((int16_t)ld(T_I, a) < s->v); break; }
        case S_SWITCH: {
            u16 v = ev(s->a); int at = -1;
            for (size_t i = 0; i < s->cases.size(); ++i) if ((u16)s->cases[i] == v) at = (int)i;
            bool go = false;
            for (size_t i = 0; i <= s->cases.size(); ++i) {
                if ((int)i == s->v) { if (at < 0) go = true; if (go) { k = run(s->body); if (k == R_BREAK) return R_NORM; if (k != R_NORM) return k; } }
                if (i < s->cases.size()) { if ((int)i == at) go = true; if (go) { k = run(s->cb[i]); if (k == R_BREAK) return R_NORM; if (k != R_NORM) return k; } }
            }
            break;
        }
        case S_BREAK: return R_BREAK; case S_CONTINUE: return R_CONT;
        case S_RETURN: if (s->a) retv = ev(s->a); return R_RET;
        case S_BLOCK: return run(s->body);
        case S_DECL: for (size_t i = 0; i < s->vars.size(); ++i) { u16 v = ev(s->inits[i]); st(s->vars[i]->t, varAddr(s->vars[i]), v); } break;
        case S_GOTO: return R_GOTO + s->v;
        case S_PUTN: pn(ev(s->a)); break;
        case S_PUTC: out += (char)ev(s->a); break;
        case S_PUTS: for (char c : s->s + "\n") { if (c == '\n' && lib) out += '\r'; out += c; } break;
        case S_RECCOPY: { u16 d = s->v & 1 ? ev(s->a) : addr(s->a), x = s->v & 2 ? ev(s->b) : addr(s->b); if (d != x) { u8 t[RECSIZE]; memcpy(t, mem + x, RECSIZE); memcpy(mem + d, t, RECSIZE); } break; }
        case S_WLOOP: while (ev(s->a)) { k = loopEnd(run(s->body), &stop); if (stop) return k; } break;
        case S_TEXT: for (u16 v : s->prints) pn(v); break;
        case S_SETFP: fpVal[varAddr(s->vars[0])] = s->fn; break;
        case S_RAW: for (auto& v : s->vars) { u16 a = varAddr(v); int n = v->rec ? RECSIZE : v->n * sizeOf(v->t); for (int i = 0; i < n; ++i) mem[a + i] = (u8)(v->rec ? 0 : 0); for (int i = 0; !v->rec && i < v->n; ++i) st(v->t, (u16)(a + i * sizeOf(v->t)), (u16)(i * s->v)); } break;
        }
        return R_NORM;
    }
    // ------------------------------------------------------------ the program
    void startFn(Fn* f) {
        cur = f; scope = globals; labelNo = 0; loops = 0; blockNames.clear();
        for (auto& p : f->par) { p->addr = f->frame; f->frame += 2; hide(p); blockNames.push_back(p->name); }
    }
    // local variables every function starts with
    vector<SP> prologue(bool big) {
        vector<SP> b;
        int n = r.range(1, 3);
        for (int i = 0; i < n; ++i) {
            SP s = ms(S_DECL); auto v = std::make_shared<Var>(); v->t = r.pick({ (int)T_I, (int)T_I, (int)T_U, (int)T_C, (int)T_UC }); v->name = fresh("v"); v->addr = cur->frame; cur->frame += 2; v->scratch = i == 0;
            s->vars.push_back(v); s->inits.push_back(lit((long)r.below(300))); b.push_back(s); hide(v); blockNames.push_back(v->name);
        }
        if (big) {
            if (r.chance(1, 2)) { // local array
                auto v = std::make_shared<Var>(); v->t = r.pick({ (int)T_I, (int)T_U, (int)T_C, (int)T_UC }); v->n = 8; v->name = fresh("la"); v->addr = cur->frame; cur->frame += 16;
                SP s = ms(S_RAW); s->vars.push_back(v); s->v = r.range(0, 60); string k = sfmt("k%d", loops++);
                s->s = sfmt("  %s %s[8];\n  int %s; for (%s = 0; %s < 8; ++%s) %s[%s] = %s*%d;\n", tyName(v->t), v->name.c_str(), k.c_str(), k.c_str(), k.c_str(), k.c_str(), v->name.c_str(), k.c_str(), k.c_str(), s->v);
                b.push_back(s); hide(v); rawLoops.insert(k);
            }
            if (r.chance(1, 3)) { // local struct
                auto v = std::make_shared<Var>(); v->rec = true; v->t = T_V; v->name = fresh("lr"); v->addr = cur->frame; cur->frame += RECSIZE + 1;
                SP s = ms(S_RAW); s->vars.push_back(v); s->s = sfmt("  struct Rec %s; %s = zrec;\n", v->name.c_str(), v->name.c_str()); b.push_back(s); hide(v);
            }
            if (r.chance(1, 2)) { // function pointer
                vector<Fn*> c; for (int i = 0; i < callable; ++i) if (fns[i]->sig) c.push_back(fns[i].get());
                if (!c.empty()) {
                    auto v = std::make_shared<Var>(); v->fptr = true; v->t = T_V; v->name = fresh("fp"); v->addr = cur->frame; cur->frame += 2;
                    SP s = ms(S_RAW); s->s = sfmt("  int (*%s)(int, int);\n", v->name.c_str()); b.push_back(s);
                    s = ms(S_SETFP); s->vars.push_back(v); s->fn = c[r.below((u32)c.size())]; b.push_back(s); hide(v);
                }
            }
        }
        return b;
    }
    std::set<string> rawLoops;
    string fnText(Fn* f, const string& head, bool main) {
        string t = head + "\n{\n"; ind = "  ";
        size_t pro = 0; while (pro < f->body.size() && (f->body[pro]->op == S_DECL || f->body[pro]->op == S_RAW || f->body[pro]->op == S_SETFP)) ++pro;
        (void)pro; (void)main;
        string k; for (int i = 0; i < loops; ++i) { string n = sfmt("k%d", i); if (!rawLoops.count(n)) k += "  int " + n + ";\n"; }
        t += k + txB(f->body) + "}\n"; rawLoops.clear();
        return t;
    }
    string sig(Fn* f) { string t = string(tyName(f->ret)) + " " + f->name + "("; for (size_t i = 0; i < f->par.size(); ++i) t += (i ? ", " : "") + string(tyName(f->par[i]->t)) + " " + f->par[i]->name; if (f->variadic) t = string("int ") + f->name + "(int n, ..."; return t + (f->par.empty() && !f->variadic ? "void)" : ")"); }
    Prog make(int size) {
        memset(mem, 0, sizeof mem);
        for (auto& s : strs) { int n = 8; while (n--) s += (char)(r.chance(1, 6) ? 128 + r.below(127) : '!' + r.below(90)); }
        string t, protos, bodies;
        if (lib) t += "#include \"lib.h\"\n";
        else t += "void putchar(int ch) {\n    _emit 0x8B _emit 0x46|2<<3 _emit 0x04 // MOV DX, [BP+4]\n    _emit 0xB8 _emit 0x00 _emit 0x02\n    _emit 0xCD _emit 0x21\n}\nvoid putstr(const char* s) { while (*s) putchar(*s++); }\n";
        t += "void putn(int n) {\n    int i;\n    for (i = 0; i < 4; ++i) {\n        putchar(\"0123456789abcdef\"[(n>>12)&0xf]);\n        n <<= 4;\n    }\n    putchar(' ');\n}\n";
        if (!lib) t += "void main(void);\nvoid _start(void) {\n    char* bss = &_SBSS;\n    while (bss != &_EBSS) *bss++ = 0;\n    main();\n    _emit 0xB8 _emit 0x00 _emit 0x4C _emit 0xcd _emit 0x21\n}\n";
        t += "struct In { char p; int q; };\nstruct Rec { int a; char b; unsigned char c[3]; unsigned u; struct In in; int w[4]; };\n";
        t += "const char txt0[] = " + strLit(r, strs[0], style) + ";\nconst char txt1[] = " + strLit(r, strs[1], style) + ";\n";
        // globals
        auto decl = [&](const VP& v) { string n = v->rec ? "struct Rec" : tyName(v->t); n += " " + v->name; if (v->n) n += sfmt("[%d]", v->n); if (v->m) n += sfmt("[%d]", v->m); return n; };
        vector<string> gt;
        for (int ty = T_I; ty <= T_UC; ++ty) gt.push_back(decl(global(sfmt("ga%d", ty), ty, 8)) + ";\n");
        for (int i = r.range(1, 4); i--;) { auto v = global(fresh("g"), r.pick({ (int)T_I, (int)T_U, (int)T_C, (int)T_UC })); v->scratch = r.chance(1, 4); gt.push_back((r.chance(1, 4) ? "static " : "") + decl(v) + ";\n"); }
        for (int i = r.range(0, 2); i--;) { auto v = global(fresh("gi"), r.pick({ (int)T_I, (int)T_U, (int)T_C, (int)T_UC })); int x = (int)r.below(120); st(v->t, (u16)v->addr, (u16)x); gt.push_back(decl(v) + " = " + num(r, x, style) + ";\n"); }
        if (r.chance(1, 2)) gt.push_back(decl(global("g2d", r.pick({ (int)T_I, (int)T_C, (int)T_UC }), 2, 4)) + ";\n");
        gt.push_back(decl(global("zrec", T_V, 0, 0, true)) + ";\n"); globals.pop_back(); // stays zero
        if (r.chance(2, 3)) gt.push_back(decl(global(fresh("gr"), T_V, 0, 0, true)) + ";\n");
        if (r.chance(1, 3)) gt.push_back(decl(global(fresh("grs"), T_V, 4, 0, true)) + ";\n");
        for (auto& g : gt) t += g;
        // functions
        int nf = r.range(0, 4);
        if (r.chance(1, 2)) { auto f = std::make_shared<Fn>(); f->name = "vsum"; f->variadic = true; fns.push_back(f); bodies += "int vsum(int n, ...)\n{\n  va_list vl;\n  int s;\n  s = 0;\n  va_start(vl, n);\n  while (n--) s = s*3 + va_arg(vl, int);\n  va_end(vl);\n  return s;\n}\n"; ++callable; }
        for (int i = 0; i < nf; ++i) {
            auto f = std::make_shared<Fn>(); f->name = fresh("f"); f->sig = r.chance(1, 2);
            f->ret = f->sig ? T_I : r.pick({ (int)T_I, (int)T_U, (int)T_C, (int)T_UC, (int)T_V });
            int np = f->sig ? 2 : r.range(0, 5);
            for (int k = 0; k < np; ++k) { auto p = std::make_shared<Var>(); p->name = fresh("p"); p->t = f->sig ? T_I : r.pick({ (int)T_I, (int)T_I, (int)T_U, (int)T_C, (int)T_UC, (int)T_P + T_I, (int)T_P + T_C, (int)T_PR }); if (p->t == T_PR && !recGlobal()) p->t = T_I; f->par.push_back(p); }
            bool rec = !f->sig && r.chance(1, 3); // recursive: first parameter counts down
            if (rec) { auto p = std::make_shared<Var>(); p->name = "depth"; p->konst = true; f->par.insert(f->par.begin(), p); }
            startFn(f.get()); budget = r.range(1, 5);
            auto b = prologue(r.chance(1, 3)); auto more = block(budget, 1, 0); b.insert(b.end(), more.begin(), more.end());
            touched.clear();
            if (rec) { // if (depth > 0) ... f(depth - 1, ...)
                EP e = mk(CALL, f->ret); e->fn = f.get(); e->args.push_back(mk(SUB, T_I, var(f->par[0]), lit(1))); noCall = true;
                for (size_t k = 1; k < f->par.size(); ++k) e->args.push_back(isPtr(f->par[k]->t) ? ptrTo(f->par[k]->t, 0) : gen(1));
                noCall = false; EP cnd = mk(GT, T_I, var(f->par[0]), lit(0));
                if (f->ret == T_V) { SP s = ms(S_EXPR); s->a = e; SP q = ms(S_IF); q->a = cnd; q->body.push_back(s); b.push_back(q); }
                else { EP x = mk(ADD, arith(prom(f->ret), T_I), e, gen(0)); EP c = mk(COND, T_I, cnd, x); c->c = gen(0); c->t = arith(c->b->t, c->c->t); SP s = ms(S_RETURN); s->a = c; b.push_back(s); }
            } else if (f->ret != T_V) { SP s = ms(S_RETURN); s->a = full(2); b.push_back(s); }
            f->body = b; fns.push_back(f); ++callable;
            string txt = fnText(f.get(), sig(f.get()), false);
            if (r.chance(1, 3)) { protos += sig(f.get()) + ";\n"; bodies = r.chance(1, 2) ? bodies + txt : txt + bodies; if (true) for (auto& o : fns) if (o.get() != f.get() && !o->proto) { o->proto = true; protos += sig(o.get()) + ";\n"; } f->proto = true; }
            else bodies += txt;
        }
        Fn m; m.name = "main"; m.ret = T_V; startFn(&m); budget = size + 2;
        auto b = prologue(true); auto more = block(size + 2, 2, 0); b.insert(b.end(), more.begin(), more.end());
        for (auto& g : globals) { EP e; if (g->rec) { if (g->n) continue; e = mk(FLD, fields[0].t, var(g)); e->v = 0; } else if (g->m) continue; else if (g->n) { e = mk(IDX, g->t); e->a = var(g); e->b = lit((long)r.below(8)); } else e = var(g); bool vis = false; for (auto& v : scope) vis |= v == g; if (vis) b.push_back(putn(e)); }
        SP end = ms(S_PUTS); end->s = "end"; b.push_back(end);
        m.body = b;
        string mt = fnText(&m, lib ? "int main()" : "void main()", true);
        if (lib) mt = mt.substr(0, mt.size() - 2) + "  return 0;\n}\n";
        t += protos + extra + bodies + mt;
        callFn(&m, {});
        Prog p; p.src = t; p.expect = out; return p;
    }
    bool recGlobal() { for (auto& g : globals) if (g->rec) return true; return false; }
};
}
Prog genProgram2(Rng& r, int size, int style, bool useLib) {
    for (;;) { auto g = std::make_unique<G>(r, style, useLib); Prog p = g->make(size); if (!g->tooLong && p.expect.size() < 4000) return p; }
}

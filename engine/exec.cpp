// Symbolic execution of the lowered program.
#include "sx.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <deque>
#include <fstream>
#include <sstream>
#include <thread>
#include <malloc.h>
#include <unistd.h>

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string jesc(const std::string& s) { std::string r; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c >= 127) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

// ---------------------------------------------------------------- memory
enum ObjKind : u8 { OK_GLOBAL, OK_STACK, OK_MALLOC, OK_NEW, OK_NEWARR, OK_FREED_HEAP, OK_FREED_STACK };
struct Obj {
  std::atomic<u32> rc; u32 size; ObjKind kind; u8 ro; u8 tls; u32 site[3];
  u8* data; u8* tag; std::vector<std::pair<u32, Expr*>> sym;
  static Obj* make(u32 size, ObjKind k, u8 fillTag) {
    Obj* o = new Obj; o->rc = 1; o->size = size; o->kind = k; o->ro = 0; o->tls = 0; o->site[0] = o->site[1] = o->site[2] = 0;
    u32 a = (size + 15) & ~7u; o->data = (u8*)malloc(a * 2); o->tag = o->data + a; memset(o->data, 0, a); memset(o->tag, fillTag, a); return o; }
  Obj* clone() const { Obj* o = new Obj; o->rc = 1; o->size = size; o->kind = kind; o->ro = ro; o->tls = tls; memcpy(o->site, site, sizeof site); u32 a = (size + 15) & ~7u; o->data = (u8*)malloc(a * 2); o->tag = o->data + a; memcpy(o->data, data, a * 2); o->sym = sym; return o; }
  void unref() { if (rc.fetch_sub(1) == 1) { free(data); delete this; } }
  Expr* symAt(u32 off) const { auto it = std::lower_bound(sym.begin(), sym.end(), off, [](const std::pair<u32, Expr*>& p, u32 o) { return p.first < o; }); if (it != sym.end() && it->first == off) return it->second; return nullptr; }
  void setSym(u32 off, Expr* e) { auto it = std::lower_bound(sym.begin(), sym.end(), off, [](const std::pair<u32, Expr*>& p, u32 o) { return p.first < o; }); if (it != sym.end() && it->first == off) it->second = e; else sym.insert(it, {off, e}); }
  void clrSym(u32 off) { auto it = std::lower_bound(sym.begin(), sym.end(), off, [](const std::pair<u32, Expr*>& p, u32 o) { return p.first < o; }); if (it != sym.end() && it->first == off) sym.erase(it); }
};
static Obj gFreedHeap, gFreedStack;
static const int CH = 64;
struct Chunk { std::atomic<u32> rc; Obj* o[CH]; };

struct Frame { const Func* f; u32 pc, base, al; i32 dst; };
struct Job;
struct State {
  std::vector<Chunk*> chunks; u32 nextObj = 1;
  std::vector<Val> regs; std::vector<Frame> frames; std::vector<u32> allocas;
  std::vector<Dom> dom; std::vector<u8> vw; std::vector<u32> vlabel;
  std::vector<Expr*> cons; VMask cvars{{0, 0, 0}};
  u64 steps = 0; u32 heapMark = 0; bool forbidG = false, watch = false, errOut = false; u8 split = 0; u8 guards = 0; bool initPhase = false; u64 reach = 0; u32 cuts = 0; bool dead = false;
  std::vector<std::pair<Expr*, bool>> trail;  // structural branch decisions (audit)
  Job* job = nullptr;
  State() {}
  State(const State& o) : chunks(o.chunks), nextObj(o.nextObj), regs(o.regs), frames(o.frames), allocas(o.allocas), dom(o.dom), vw(o.vw), vlabel(o.vlabel), cons(o.cons), cvars(o.cvars), steps(o.steps), heapMark(o.heapMark), forbidG(o.forbidG), watch(o.watch), errOut(o.errOut), split(o.split), guards(o.guards), initPhase(o.initPhase), reach(o.reach), cuts(o.cuts), dead(o.dead), trail(o.trail), job(o.job) { for (Chunk* c : chunks) if (c) c->rc.fetch_add(1, std::memory_order_relaxed); }
  ~State() { for (Chunk* c : chunks) if (c) dropChunk(c); }
  static void dropChunk(Chunk* c) { if (c->rc.fetch_sub(1) == 1) { for (int i = 0; i < CH; i++) if (c->o[i] && c->o[i] != &gFreedHeap && c->o[i] != &gFreedStack) c->o[i]->unref(); delete c; } }
  Obj* get(u32 id) const { u32 c = id / CH; if (c >= chunks.size() || !chunks[c]) return nullptr; return chunks[c]->o[id % CH]; }
  Chunk* wchunk(u32 c) {
    if (c >= chunks.size()) chunks.resize(c + 1, nullptr);
    Chunk*& p = chunks[c];
    if (!p) { p = new Chunk; p->rc = 1; memset(p->o, 0, sizeof p->o); return p; }
    if (p->rc.load() > 1) { Chunk* n = new Chunk; n->rc = 1; for (int i = 0; i < CH; i++) { n->o[i] = p->o[i]; if (n->o[i] && n->o[i] != &gFreedHeap && n->o[i] != &gFreedStack) n->o[i]->rc.fetch_add(1, std::memory_order_relaxed); } dropChunk(p); p = n; }
    return p; }
  void setObj(u32 id, Obj* o) { Chunk* c = wchunk(id / CH); Obj* old = c->o[id % CH]; c->o[id % CH] = o; if (old && old != &gFreedHeap && old != &gFreedStack) old->unref(); }
  Obj* wget(u32 id) { Chunk* c = wchunk(id / CH); Obj*& o = c->o[id % CH]; if (o->rc.load() > 1) { Obj* n = o->clone(); o->unref(); o = n; } return o; }
  u32 add(Obj* o) { u32 id = nextObj++; setObj(id, o); return id; }
};

// ---------------------------------------------------------------- jobs
struct Violation { std::string key, kind, msg, where, stack; std::vector<std::pair<std::string, u64>> inputs; };
struct Job {
  std::string name; Func* entry; std::vector<u64> args; double budget = 0;
  std::atomic<u64> paths{0}, forks{0}, steps{0}, asserts{0}, assertsSym{0}, live{0}, cuts{0}, pruned{0}, dropped{0}, unsup{0}, assumeKilled{0};
  std::atomic<bool> stop{false}; std::atomic<bool> started{false}; double t0 = 0, t1 = 0;
  std::mutex m; std::vector<Violation> viol; std::set<std::string> keys; std::atomic<u64> reach{0}; std::vector<std::vector<std::pair<std::string, u64>>> samples, unsupSamples; std::set<std::string> unsupMsgs; std::vector<std::string> logs; std::atomic<u64> maxSteps{0};
};

static Program P;
static std::vector<u8> gExecuted;
static std::vector<std::string> gLabels; static std::unordered_map<std::string, u32> gLabelIdx; static std::mutex gLabelM;
static u32 labelId(const std::string& s) { std::lock_guard<std::mutex> g(gLabelM); auto it = gLabelIdx.find(s); if (it != gLabelIdx.end()) return it->second; gLabels.push_back(s); gLabelIdx[s] = gLabels.size() - 1; return gLabels.size() - 1; }
static State gBase; static double gDeadline = 1e18; static u64 gMaxSteps = 30000000; static u32 gMaxViol = 8; static u32 gAuditEvery = 64; static size_t gSamples = 12; static u64 gSampleEvery = 997; static bool gPickAll = false;
static std::atomic<u64> gAuditBad{0}; static bool gForkStat = getenv("SX_FORKSTAT"); static std::map<std::string, u64> gForks;
static std::mutex gQM; static std::condition_variable gQC; static std::deque<State*> gQ; static std::vector<Job*> gJobs; static size_t gNextJob = 0; static int gIdle = 0, gThreads = 8; static std::atomic<int> gHungry{0}; static bool gDone = false; static std::atomic<bool> gTimeUp{false};

struct Worker;
typedef bool (*Builtin)(Worker&, State&, const Ins&, const CallInfo&, const Func&);
static std::unordered_map<std::string, Builtin> gBuiltinByName; static std::vector<Builtin> gBuiltins;

struct Worker {
  Z3Ctx* z = nullptr; std::vector<State*> local; u64 rng = 88172645463325252ull;
  void push(State* s) {
    if (gForkStat && !s->frames.empty()) { std::string k = s->frames.back().f->pretty + "@" + std::to_string(s->frames.back().pc); std::lock_guard<std::mutex> g(gLabelM); gForks[k]++; }
    s->job->live++; s->job->forks++;
    if (gHungry.load(std::memory_order_relaxed) > 0) { std::lock_guard<std::mutex> g(gQM); 
      if (!local.empty()) { gQ.push_back(local.front()); local.erase(local.begin()); local.push_back(s); } else gQ.push_back(s);
      gQC.notify_one(); return; }
    local.push_back(s);
  }
  // -------------------------------------------------- reporting
  std::string stackOf(State& s) { std::string r; int n = 0; for (size_t i = s.frames.size(); i-- > 0 && n < 14; n++) { r += s.frames[i].f->pretty; if (i) r += " < "; } return r; }
  void inputsOf(State& s, const std::map<int, u64>& m, std::vector<std::pair<std::string, u64>>& out) {
    for (size_t i = 0; i < s.vw.size(); i++) { u64 v; auto it = m.find(i); if (it != m.end()) v = it->second; else if (s.vw[i] == 8) { int best = s.dom[i].first(); out.push_back({gLabels[s.vlabel[i]], (u64)best}); continue; } else v = 0; out.push_back({gLabels[s.vlabel[i]], v}); }
  }
  void violation(State& s, const std::string& kind, const std::string& msg, Expr* extra = nullptr) {
    Job* j = s.job; if (!j) { fprintf(stderr, "violation during init: %s %s [%s]\n", kind.c_str(), msg.c_str(), stackOf(s).c_str()); exit(3); }
    std::string where; for (size_t i = s.frames.size(); i-- > 0;) if (!s.frames[i].f->isModel && s.frames[i].f->name.compare(0, 3, "_ZS") && s.frames[i].f->name.compare(0, 4, "_ZNS") && s.frames[i].f->name.compare(0, 5, "_ZNKS")) { where = s.frames[i].f->pretty; break; }
    std::string key = kind + "|" + msg + "|" + where;
    { std::lock_guard<std::mutex> g(j->m); if (j->keys.count(key)) return; }
    std::map<int, u64> model; std::vector<Expr*> cs = s.cons; if (extra) cs.push_back(extra);
    if (!cs.empty() && !quickModel(s, cs, model)) { int r = z3Check(z, cs, s.dom, s.vw, &model); if (r == 0) return; if (r < 0) { std::lock_guard<std::mutex> g(j->m); j->unsupMsgs.insert("solver unknown on violation " + key); j->unsup++; return; } }
    Violation v; v.key = key; v.kind = kind; v.msg = msg; v.where = where; v.stack = stackOf(s); inputsOf(s, model, v.inputs);
    std::lock_guard<std::mutex> g(j->m); if (!j->keys.insert(key).second) return; j->viol.push_back(v); if (j->viol.size() >= gMaxViol) j->stop = true;
  }
  bool effect(State& s, const Func& g, const CallInfo& ci);   // a call that reaches beyond the memory of the process: false when it ends the path
  void unsupported(State& s, const std::string& m) { s.dead = true; if (!s.job) { fprintf(stderr, "unsupported during init: %s [%s]\n", m.c_str(), stackOf(s).c_str()); exit(3); } s.job->unsup++; sample(s, s.job->unsupSamples, 60); std::lock_guard<std::mutex> g(s.job->m); if (s.job->unsupMsgs.size() < 20) s.job->unsupMsgs.insert(m + " [" + stackOf(s) + "]"); }
  void sample(State& s, std::vector<std::vector<std::pair<std::string, u64>>>& to, size_t lim);
  // Undefined arithmetic: reported, but the path goes on (the optimiser may have computed a value that is not used).
  void undefined(State& s, const char* msg, Expr* when = nullptr) {
    if (!s.job || s.frames.back().f->isModel) return;
    if (when) { when = simp(s, when); if (when->op == O_CONST && !when->k) return; if (when->op == O_CONST) when = nullptr; else if (when->undef) return; else if (when->tab) { bool any = false; s.dom[when->var].each([&](int i) { any = when->tab->v[i] & 1; return !any; }); if (!any) return; } }
    violation(s, "ub", msg, when);
  }
  bool fail(State& s, const char* kind, const std::string& msg) { violation(s, kind, msg); s.dead = true; return false; }

  // -------------------------------------------------- symbolic helpers
  static Expr* toE(const Val& v, unsigned w) {
    if (!v.e) return eConst(v.c, w);
    if (v.e->w == w) return v.e;
    if (v.e->op == O_UNDEF) { int n = (w + 7) / 8; Expr* k[8]; for (int i = 0; i < n; i++) k[i] = v.e; Expr* c = eConcat(k, n); return eExtract(c, 0, w); }
    if (v.e->w > w) return eExtract(v.e, 0, w);
    return eExt(O_ZEXT, v.e, w);
  }
  static Val fromE(Expr* e) { if (e->op == O_CONST) return VC(e->k); return Val{e->w >= 64 ? 0 : 0, e}; }
  bool tabConst(State& s, Expr* e, u64& out) {
    const Dom& d = s.dom[e->var]; bool first = true, same = true; u64 v = 0; const Tab* t = e->tab;
    d.each([&](int i) { if (first) { v = t->v[i]; first = false; } else if (t->v[i] != v) { same = false; return false; } return true; });
    out = v; return same && !first;
  }
  Expr* simpRec(State& s, Expr* e, std::unordered_map<Expr*, Expr*>& memo) {
    if (e->op == O_CONST) return e;
    if (e->tab) { u64 v; if (tabConst(s, e, v)) return eConst(v, e->w); return e; }
    if (!e->nk) return e;
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    Expr* k[64]; bool ch = false; for (int i = 0; i < e->nk; i++) { k[i] = simpRec(s, e->kid[i], memo); ch |= k[i] != e->kid[i]; }
    Expr* r = e;
    if (ch) switch (e->op) {
      case O_ZEXT: case O_SEXT: r = eExt((Op)e->op, k[0], e->w); break;
      case O_EXTRACT: r = eExtract(k[0], e->k, e->w); break;
      case O_CONCAT: r = eConcat(k, e->nk); break;
      case O_ITE: r = eIte(k[0], k[1], k[2]); break;
      case O_UF: r = eUF(e->k, e->w, k, e->nk); break;
      default: r = eBin((Op)e->op, k[0], k[1]); break;
    }
    memo[e] = r; return r;
  }
  Expr* simp(State& s, Expr* e) {
    if (e->op == O_CONST) return e;
    if (e->tab) { u64 v; if (tabConst(s, e, v)) return eConst(v, e->w); return e; }
    std::unordered_map<Expr*, Expr*> memo; return simpRec(s, e, memo);
  }
  // cheap simplification used on every symbolic operation
  Val sv(State& s, Val v) { if (!v.e) return v; if (v.e->tab) { u64 c; if (tabConst(s, v.e, c)) return VC(c); } return v; }

  bool feasible(State& s, const std::vector<Expr*>& extra, const VMask& start) {
    // connected component of constraints around `start`
    VMask vm = start; std::vector<Expr*> cs = extra; std::vector<char> used(s.cons.size(), 0); bool ch = true;
    for (Expr* e : extra) vm.orr(e->vm);
    while (ch) { ch = false; for (size_t i = 0; i < s.cons.size(); i++) if (!used[i] && s.cons[i]->vm.inter(vm)) { used[i] = 1; cs.push_back(s.cons[i]); vm.orr(s.cons[i]->vm); ch = true; } }
    if (cs.empty()) return true;
    return z3Check(z, cs, s.dom, s.vw, nullptr) != 0;
  }
  bool setDom(State& s, int var, const Dom& d) {  // returns feasibility
    s.dom[var] = d; if (d.empty()) return false;
    if (s.cvars.has(var)) { VMask m{{0, 0, 0}}; m.set(var); return feasible(s, {}, m); }
    return true;
  }
  // Split the state on the value groups of a tab expression; s keeps the first feasible group.
  bool forkGroups(State& s, Expr* t) {
    std::vector<std::pair<u64, Dom>> g; const Dom d0 = s.dom[t->var];
    d0.each([&](int i) { u64 v = t->tab->v[i]; for (auto& p : g) if (p.first == v) { p.second.set(i); return true; } Dom n; n.clear(); n.set(i); g.push_back({v, n}); return true; });
    std::vector<State*> clones; bool have = false; Dom mine;
    for (auto& p : g) {
      if (!have) { Dom save = s.dom[t->var]; if (setDom(s, t->var, p.second)) { have = true; mine = p.second; } s.dom[t->var] = save; continue; }
      State* c = new State(s); if (setDom(*c, t->var, p.second)) { c->job = s.job; clones.push_back(c); } else { delete c; s.job->pruned++; }
    }
    if (!have) { s.dead = true; s.job->pruned++; return false; }
    s.dom[t->var] = mine;
    if (!s.job && !clones.empty()) { fprintf(stderr, "fork during init\n"); exit(3); }
    for (State* c : clones) push(c);
    return true;
  }
  void tabLeaves(State& s, Expr* e, std::vector<Expr*>& out, std::unordered_set<Expr*>& seen, bool& wide) {
    if (e->op == O_CONST || !seen.insert(e).second) return;
    if (e->tab) { out.push_back(e); return; }
    if (e->op == O_VAR || e->op == O_UF) { wide = true; return; }
    for (int i = 0; i < e->nk; i++) tabLeaves(s, e->kid[i], out, seen, wide);
  }
  int distinct(State& s, Expr* t, int lim) { std::vector<u64> vs; s.dom[t->var].each([&](int i) { u64 v = t->tab->v[i]; if (std::find(vs.begin(), vs.end(), v) == vs.end()) vs.push_back(v); return (int)vs.size() < lim; }); return vs.size(); }

  bool concretize(State& s, Val& v, unsigned w) {
    for (;;) {
      if (!v.e) return true;
      if (v.e->undef) { Expr* q = simp(s, v.e); if (q->undef) return fail(s, "uninitialised", "an address or size depends on uninitialised memory"); v = fromE(q); continue; }
      Expr* e = simp(s, v.e);
      if (e->op == O_CONST) { v = VC(e->k); return true; }
      if (e->tab) { if (!forkGroups(s, e)) return false; v.e = e; continue; }
      std::vector<Expr*> lv; std::unordered_set<Expr*> seen; bool wide = false; tabLeaves(s, e, lv, seen, wide);
      if (!lv.empty()) { Expr* best = nullptr; int bd = 1 << 30; for (Expr* t : lv) { int d = distinct(s, t, 257); if (d < bd) bd = d, best = t; } if (!forkGroups(s, best)) return false; v.e = e; continue; }
      // wide: enumerate with the solver (bounded)
      std::map<int, u64> m; std::vector<u64> vals; Expr* top = eNot(eBin(O_EQ, e, eConst(0x5a5a5a5a5a5a5a5aull & maskw(e->w), e->w)));
      for (int n = 0; n < 40; n++) {
        std::vector<Expr*> c2 = s.cons; if (top->op != O_CONST) c2.push_back(top); for (u64 x : vals) c2.push_back(eNot(eBin(O_EQ, e, eConst(x, e->w))));
        m.clear(); int r = z3Check(z, c2, s.dom, s.vw, &m);
        if (r == 0 && top->op != O_CONST) { top = eConst(1, 1); n--; continue; }   // the one excluded value
        if (r == 0) break; if (r < 0) { unsupported(s, "solver unknown"); return false; }
        u64 x = evalModel(e, m); if (std::find(vals.begin(), vals.end(), x) != vals.end()) { unsupported(s, "value enumeration does not progress"); return false; } vals.push_back(x);
      }
      if (vals.empty()) { s.dead = true; s.job->pruned++; return false; }
      if (vals.size() >= 40) { unsupported(s, "too many values for a symbolic address or size"); return false; }
      for (size_t i = 1; i < vals.size(); i++) { State* c = new State(s); addCons(*c, eBin(O_EQ, e, eConst(vals[i], e->w))); push(c); }
      addCons(s, eBin(O_EQ, e, eConst(vals[0], e->w))); v = VC(vals[0]); return true;
    }
  }
  u64 evalModel(Expr* e, std::map<int, u64>& m) {
    switch (e->op) {
      case O_CONST: return e->k; case O_VAR: return m[e->k] & maskw(e->w); case O_LOADTAB: return e->tab->v[m[e->var] & 255];
      case O_ZEXT: return evalModel(e->kid[0], m); case O_SEXT: return (u64)sextw(evalModel(e->kid[0], m), e->kid[0]->w) & maskw(e->w);
      case O_EXTRACT: return (evalModel(e->kid[0], m) >> e->k) & maskw(e->w);
      case O_CONCAT: { u64 r = 0; for (int i = 0; i < e->nk; i++) r |= evalModel(e->kid[i], m) << (8 * i); return r; }
      case O_ITE: return evalModel(e->kid[0], m) ? evalModel(e->kid[1], m) : evalModel(e->kid[2], m);
      case O_UF: case O_UNDEF: return 0;
      default: return evalOp((Op)e->op, e->w, e->kid[0]->w, evalModel(e->kid[0], m), evalModel(e->kid[1], m));
    }
  }
  // A model by trial: extreme and random values of the bytes, checked by evaluating every constraint.
  u64 evalM(Expr* e, std::vector<u64>& m, std::unordered_map<Expr*, u64>& memo, bool& uf) {
    if (e->op == O_CONST) return e->k; if (e->op == O_VAR) return m[e->k] & maskw(e->w); if (e->tab) return e->tab->v[m[e->var] & 255]; if (e->op == O_UF || e->op == O_UNDEF) { uf = true; return 0; }
    auto it = memo.find(e); if (it != memo.end()) return it->second; u64 r; auto K = [&](int i) { return evalM(e->kid[i], m, memo, uf); };
    switch (e->op) { case O_ZEXT: r = K(0); break; case O_SEXT: r = (u64)sextw(K(0), e->kid[0]->w) & maskw(e->w); break; case O_EXTRACT: r = (K(0) >> e->k) & maskw(e->w); break; case O_CONCAT: r = 0; for (int i = 0; i < e->nk; i++) r |= K(i) << (8 * i); break; case O_ITE: r = K(0) ? K(1) : K(2); break; default: r = evalOp((Op)e->op, e->w, e->kid[0]->w, K(0), K(1)); }
    return memo[e] = r; }
  bool quickModel(State& s, const std::vector<Expr*>& cs, std::map<int, u64>& out) {
    size_t n = s.vw.size(); std::vector<u64> m(n); std::unordered_map<Expr*, u64> memo;
    for (int t = 0; t < 24; t++) {
      for (size_t i = 0; i < n; i++) { if (s.vw[i] != 8) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; m[i] = t == 0 ? 0 : t == 1 ? (~0ull >> 1) : t < 8 ? rng & 1023 : rng >> 1; continue; } int c = s.dom[i].count(), k; if (!c) return false; rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; k = t == 0 ? 0 : t == 1 ? c - 1 : (t < 12 ? (rng % 3 == 0 ? 0 : rng >> 8) : rng >> 8) % c; int x = -1; s.dom[i].each([&](int j) { x = j; return k-- > 0; }); m[i] = x; }
      memo.clear(); bool uf = false, ok = true; for (Expr* c : cs) { if (!(evalM(c, m, memo, uf) & 1)) ok = false; if (uf) return false; if (!ok) break; }
      if (ok) { for (size_t i = 0; i < n; i++) out[i] = m[i]; return true; }
    }
    return false; }
  void addCons(State& s, Expr* c) { if (c->op == O_CONST) return; if (c->tab) { Dom d; d.clear(); s.dom[c->var].each([&](int i) { if (c->tab->v[i]) d.set(i); return true; }); s.dom[c->var] = d; return; } s.cons.push_back(c); s.cvars.orr(c->vm); }
  void trail(State& s, Expr* c, bool taken) { if (gAuditEvery) s.trail.push_back({c, taken}); }

  // Unsigned interval of an expression from the domains of its bytes (sound over-approximation).
  void urange(State& s, Expr* e, u64& lo, u64& hi, std::unordered_map<Expr*, std::pair<u64, u64>>& memo) {
    u64 mx = maskw(e->w); lo = 0; hi = mx;
    if (e->op == O_CONST) { lo = hi = e->k; return; }
    if (e->tab) { lo = ~0ull; hi = 0; s.dom[e->var].each([&](int i) { u64 v = e->tab->v[i]; if (v < lo) lo = v; if (v > hi) hi = v; return true; }); if (lo > hi) { lo = 0; hi = mx; } return; }
    if (!e->nk) return;
    auto it = memo.find(e); if (it != memo.end()) { lo = it->second.first; hi = it->second.second; return; }
    u64 a, b, c, d; typedef unsigned __int128 U;
    switch (e->op) {
      case O_ZEXT: urange(s, e->kid[0], lo, hi, memo); break;
      case O_SEXT: urange(s, e->kid[0], a, b, memo); if (b <= maskw(e->kid[0]->w) >> 1) { lo = a; hi = b; } break;
      case O_EXTRACT: urange(s, e->kid[0], a, b, memo); if (e->k == 0 && b <= mx) { lo = a; hi = b; } break;
      case O_ADD: urange(s, e->kid[0], a, b, memo); urange(s, e->kid[1], c, d, memo); if ((U)b + d <= mx) { lo = a + c; hi = b + d; } else if ((U)a + c > mx && (U)b + d <= (U)mx * 2 + 1) { lo = (a + c) & mx; hi = (b + d) & mx; } break;
      case O_SUB: urange(s, e->kid[0], a, b, memo); urange(s, e->kid[1], c, d, memo); if (a >= d) { lo = a - d; hi = b - c; } break;
      case O_MUL: urange(s, e->kid[0], a, b, memo); urange(s, e->kid[1], c, d, memo); if ((U)b * d <= mx) { lo = a * c; hi = b * d; } break;
      case O_UDIV: urange(s, e->kid[0], a, b, memo); urange(s, e->kid[1], c, d, memo); if (c) { lo = a / d; hi = b / c; } break;
      case O_SHL: urange(s, e->kid[0], a, b, memo); if (e->kid[1]->op == O_CONST && e->kid[1]->k < e->w && ((U)b << e->kid[1]->k) <= mx) { lo = a << e->kid[1]->k; hi = b << e->kid[1]->k; } break;
      case O_LSHR: urange(s, e->kid[0], a, b, memo); if (e->kid[1]->op == O_CONST && e->kid[1]->k < e->w) { lo = a >> e->kid[1]->k; hi = b >> e->kid[1]->k; } break;
      case O_AND: urange(s, e->kid[0], a, b, memo); urange(s, e->kid[1], c, d, memo); hi = b < d ? b : d; break;
      case O_ITE: urange(s, e->kid[1], a, b, memo); urange(s, e->kid[2], c, d, memo); lo = a < c ? a : c; hi = b > d ? b : d; break;
      case O_CONCAT: { u64 l = 0, h = 0; for (int i = 0; i < e->nk; i++) { urange(s, e->kid[i], a, b, memo); l |= a << (8 * i); h |= b << (8 * i); } if (e->nk * 8 == e->w) { lo = l; hi = h; } break; }
      default: break;
    }
    memo[e] = {lo, hi};
  }
  // Linear forms over the integers: e is congruent to sum(coefficient * atom) + c modulo 2^width.
  typedef __int128 I;
  struct Lin { std::vector<std::pair<Expr*, I>> t; I c = 0, lo = 0, hi = 0; bool ok = true;   // lo..hi: bounds by the way it was composed
    void add(const Lin& o, I k) { ok = ok && o.ok; c += o.c * k; if (k > 0) { lo += o.lo * k; hi += o.hi * k; } else { I a = lo + o.hi * k; hi += o.lo * k; lo = a; } for (auto& p : o.t) { auto it = std::lower_bound(t.begin(), t.end(), p.first, [](const std::pair<Expr*, I>& a, Expr* b) { return a.first->id < b->id; }); if (it != t.end() && it->first == p.first) { it->second += p.second * k; if (!it->second) t.erase(it); } else t.insert(it, {p.first, p.second * k}); }
      I lim = (I)1 << 96; if (c > lim || c < -lim || lo < -lim || hi > lim) ok = false; for (auto& p : t) if (p.second > lim || p.second < -lim) ok = false; } };
  struct LinCtx { std::unordered_map<Expr*, Lin> memo; std::unordered_map<Expr*, std::pair<u64, u64>> ur; std::vector<std::pair<std::vector<std::pair<Expr*, I>>, std::pair<I, I>>> facts; std::vector<std::pair<std::vector<std::pair<Expr*, I>>, I>> ne; };   // facts: key within bounds; ne: key differs from a value
  const Lin& lin(State& s, Expr* e, LinCtx& C) {
    auto it = C.memo.find(e); if (it != C.memo.end()) return it->second;
    Lin L; auto opaque = [&] { L = Lin(); u64 a, b; urange(s, e, a, b, C.ur); L.lo = a; L.hi = b; L.t.push_back({e, 1}); };
    if (e->op == O_CONST) L.lo = L.hi = L.c = sextw(e->k, e->w);
    else if (e->tab) {
      const Dom& d = s.dom[e->var]; u64 mn = ~0ull; d.each([&](int i) { mn = std::min(mn, e->tab->v[i]); return true; }); u64 g = 0; d.each([&](int i) { u64 a = e->tab->v[i] - mn, b = g; while (a) { u64 r = b % a; b = a; a = r; } g = b; return true; });
      L.c = L.lo = mn; L.hi = mn; d.each([&](int i) { L.hi = std::max(L.hi, (I)e->tab->v[i]); return true; }); if (g) { u64 v[256]; for (int i = 0; i < 256; i++) v[i] = d.has(i) ? (e->tab->v[i] - mn) / g : 0; L.t.push_back({eLoadTab(e, v, 64), (I)g}); if (g >> 62) L.ok = false; }
    } else switch (e->op) {
      case O_ADD: case O_SUB: { Lin a = lin(s, e->kid[0], C); L = a; L.add(lin(s, e->kid[1], C), e->op == O_ADD ? 1 : -1); break; }
      case O_MUL: if (e->kid[1]->op == O_CONST && std::llabs(sextw(e->kid[1]->k, e->w)) < (1 << 30)) L.add(lin(s, e->kid[0], C), sextw(e->kid[1]->k, e->w)); else opaque(); break;
      case O_SHL: if (e->kid[1]->op == O_CONST && e->kid[1]->k < 30) L.add(lin(s, e->kid[0], C), (I)1 << e->kid[1]->k); else opaque(); break;
      case O_EXTRACT: if (e->k == 0) L = lin(s, e->kid[0], C); else opaque(); break;
      case O_ZEXT: case O_SEXT: { Lin a = lin(s, e->kid[0], C); unsigned w = e->kid[0]->w; if (exact(s, a, w, e->op == O_SEXT, C)) L = a; else opaque(); break; }
      default: opaque();
    }
    if (!L.ok) opaque(); else { I a, b; linRange(s, L, C, a, b); L.lo = a; L.hi = b; }
    return C.memo[e] = L;
  }
  static void primitive(Lin& L, std::vector<std::pair<Expr*, I>>& key, I& g) {   // L.t = g * key, the first coefficient of key positive
    g = 0; for (auto& p : L.t) { I a = p.second < 0 ? -p.second : p.second, b = g; while (a) { I r = b % a; b = a; a = r; } g = b; }
    if (L.t[0].second < 0) g = -g; key = L.t; for (auto& p : key) p.second /= g; }
  static I fdiv(I a, I b) { I q = a / b; if ((a % b) && ((a < 0) != (b < 0))) q--; return q; }
  bool linRange(State& s, Lin& L, LinCtx& C, I& lo, I& hi) {
    if (!L.ok) return false; lo = hi = L.c;
    for (auto& p : L.t) { u64 a, b; urange(s, p.first, a, b, C.ur); I x = (I)a, y = (I)b; if (p.second > 0) { lo += p.second * x; hi += p.second * y; } else { lo += p.second * y; hi += p.second * x; } }
    if (!L.t.empty() && !C.facts.empty()) { std::vector<std::pair<Expr*, I>> key; I g; primitive(L, key, g);
      for (auto& f : C.facts) if (f.first == key) { I a = g > 0 ? g * f.second.first : g * f.second.second, b = g > 0 ? g * f.second.second : g * f.second.first; lo = std::max(lo, a + L.c); hi = std::min(hi, b + L.c); } }
    lo = std::max(lo, L.lo); hi = std::min(hi, L.hi);
    return true; }
  bool exact(State& s, Lin& L, unsigned w, bool sign, LinCtx& C) { I lo, hi; if (!linRange(s, L, C, lo, hi)) return false; I m = (I)1 << (sign ? w - 1 : w); return sign ? lo >= -m && hi < m : lo >= 0 && hi < m; }
  static Lin one() { Lin L; L.c = L.lo = L.hi = 1; return L; }
  // A comparison as D <= 0 (1), D == 0 (2) or D != 0 (3); 0 when it is not linear.
  int linCmp(State& s, Expr* c, LinCtx& C, Lin& D) {
    bool neg = false;
    while (c->w == 1 && c->nk == 2 && (c->op == O_XOR || c->op == O_EQ) && c->kid[0]->w == 1) { if (c->kid[1]->op == O_CONST) { if (c->op == O_XOR ? c->kid[1]->k : !c->kid[1]->k) neg = !neg; c = c->kid[0]; } else if (c->kid[0]->op == O_CONST) { if (c->op == O_XOR ? c->kid[0]->k : !c->kid[0]->k) neg = !neg; c = c->kid[1]; } else break; }
    if (c->undef || c->nk != 2 || c->op < O_EQ || c->op > O_SLE) return 0;
    Expr *a = c->kid[0], *b = c->kid[1]; unsigned w = a->w; I lo, hi; bool sign = c->op >= O_SLT; D = Lin();
    if (c->op == O_EQ) { D = lin(s, a, C); D.add(lin(s, b, C), -1); if (a == b) return 0; if (!linRange(s, D, C, lo, hi)) return 0; I m = (I)1 << w; if (lo <= -m || hi >= m) { if (lo > 0 || hi < 0) {} Lin A = lin(s, a, C), B = lin(s, b, C); if (!(exact(s, A, w, false, C) && exact(s, B, w, false, C))) return 0; } return neg ? 3 : 2; }
    auto div = [&](Expr* e, Expr*& x, I& k) { while (e->op == O_ZEXT) e = e->kid[0]; if (e->op != O_UDIV || e->kid[1]->op != O_CONST || !e->kid[1]->k || e->kid[1]->k >= (1u << 30)) return false; x = e->kid[0]; k = e->kid[1]->k; return true; };
    bool lt = c->op == O_ULT || c->op == O_SLT; if (neg) { std::swap(a, b); lt = !lt; }
    Expr* x; I k = 1; int side = 0; if (!a->tab && div(a, x, k)) side = 1; else if (!b->tab && div(b, x, k)) side = 2;
    Lin A = lin(s, side == 1 ? x : a, C), B = lin(s, side == 2 ? x : b, C);
    if (!exact(s, A, side == 1 ? x->w : w, side == 1 ? false : sign, C) || !exact(s, B, side == 2 ? x->w : w, side == 2 ? false : sign, C)) return 0;
    if (side == 0) { D = A; D.add(B, -1); if (lt) D.add(one(), 1); }
    else if (side == 1) { D = A; D.add(B, -k); D.add(one(), lt ? 1 : 1 - k); }
    else { D.add(A, k); D.add(B, -1); if (lt) D.add(one(), k); }
    return D.ok ? 1 : 0; }
  void linFacts(State& s, const VMask& vm, LinCtx& C) {
    for (Expr* k : s.cons) { if (!k->vm.inter(vm)) continue; Lin D; int r = linCmp(s, k, C, D); if (!r || D.t.empty()) continue;
      std::vector<std::pair<Expr*, I>> key; I g; primitive(D, key, g); I big = (I)1 << 120; I lo = -big, hi = big;   // g * key + c <= 0
      if (r == 3) { if (D.c % g == 0) C.ne.push_back({key, -D.c / g}); continue; }
      if (r == 1) { if (g > 0) hi = fdiv(-D.c, g); else lo = -fdiv(-D.c, -g); } else { if (D.c % g) continue; lo = hi = -D.c / g; }
      bool had = false; for (auto& f : C.facts) if (f.first == key) { f.second.first = std::max(f.second.first, lo); f.second.second = std::min(f.second.second, hi); had = true; } if (!had) C.facts.push_back({key, {lo, hi}}); C.memo.clear(); } }
  int linDecide(State& s, Expr* c, bool& linear) {
    LinCtx C; linFacts(s, c->vm, C); Lin D; int r = linCmp(s, c, C, D); linear = r != 0; if (!r) return -1; I lo, hi; linRange(s, D, C, lo, hi);
    if (lo > hi) return -1;
    if (r == 1) return hi <= 0 ? 1 : lo > 0 ? 0 : -1;
    if (lo > 0 || hi < 0) return r == 2 ? 0 : 1; if (lo == 0 && hi == 0) return r == 2 ? 1 : 0;
    if (!D.t.empty()) { std::vector<std::pair<Expr*, I>> key; I g; primitive(D, key, g); if (D.c % g) return r == 2 ? 0 : 1; for (auto& f : C.ne) if (f.first == key && f.second == -D.c / g) return r == 2 ? 0 : 1; }
    return -1; }
  bool noOverflow(State& s, Op op, Expr* x, Expr* y, unsigned w) { LinCtx C; VMask vm = x->vm; vm.orr(y->vm); linFacts(s, vm, C); Lin a = lin(s, x, C), b = lin(s, y, C); if (!exact(s, a, w, true, C) || !exact(s, b, w, true, C)) return false; a.add(b, op == O_ADD ? 1 : -1); return exact(s, a, w, true, C); }
  int decide(State& s, Expr* c, bool* linear = nullptr) { if (linear) *linear = false; int r = decide0(s, c); if (r >= 0) return r; bool l; r = linDecide(s, c, l); if (linear) *linear = l; return r; }
  int decide0(State& s, Expr* c) {   // 1/0 when the intervals decide the comparison, else -1
    std::unordered_map<Expr*, std::pair<u64, u64>> memo; bool neg = false;
    while (c->w == 1 && c->nk == 2 && (c->op == O_XOR || c->op == O_EQ) && c->kid[0]->w == 1) { if (c->kid[1]->op == O_CONST) { if (c->op == O_XOR ? c->kid[1]->k : !c->kid[1]->k) neg = !neg; c = c->kid[0]; } else if (c->kid[0]->op == O_CONST) { if (c->op == O_XOR ? c->kid[0]->k : !c->kid[0]->k) neg = !neg; c = c->kid[1]; } else break; }
    if (c->nk != 2) return -1; int r = -1; u64 a, b, x, y;
    if (c->op != O_EQ && c->op != O_ULT && c->op != O_ULE && c->op != O_SLT && c->op != O_SLE) return -1;
    urange(s, c->kid[0], a, b, memo); urange(s, c->kid[1], x, y, memo);
    if (c->op == O_SLT || c->op == O_SLE) {
      unsigned w = c->kid[0]->w; u64 h = maskw(w) >> 1; bool n0 = a > h, n1 = x > h; if ((b > h) != n0 || (y > h) != n1) return -1;   // mixed signs
      if (n0 != n1) r = n0 ? 1 : 0;
    }
    if (r < 0) switch (c->op) {
      case O_EQ: if (b < x || y < a) r = 0; else if (a == b && x == y && a == x) r = 1; break;
      case O_ULT: case O_SLT: if (b < x) r = 1; else if (a >= y) r = 0; break;
      default: if (b <= x) r = 1; else if (a > y) r = 0; break;
    }
    return r < 0 ? -1 : (r ^ (neg ? 1 : 0));
  }

  // Decide a branch. 1/0, or -1 when the state died. The other feasible side is forked (it re-executes the instruction).
  int branch(State& s, Expr* c) {
    for (;;) {
      c = simp(s, c);
      if (c->op == O_CONST) return c->k & 1;
      if (c->undef) { fail(s, "uninitialised", "a branch depends on uninitialised memory"); return -1; }
      if (c->tab) {
        Dom t; t.clear(); const Dom d = s.dom[c->var]; d.each([&](int i) { if (c->tab->v[i] & 1) t.set(i); return true; });
        Dom f = d.minus(t); if (t.empty()) return 0; if (f.empty()) return 1;
        if (!s.job) { fprintf(stderr, "fork during init\n"); exit(3); }
        if (s.cvars.has(c->var)) {
          State* o = new State(s); bool fo = setDom(*o, c->var, f); bool ft = setDom(s, c->var, t);
          if (fo && ft) { trail(*o, c, false); trail(s, c, true); push(o); return 1; }
          if (fo) { s.dom[c->var] = f; delete o; s.job->pruned++; return 0; }
          delete o; s.job->pruned++; if (!ft) { s.dead = true; return -1; } return 1;
        }
        State* o = new State(s); o->dom[c->var] = f; s.dom[c->var] = t; trail(*o, c, false); trail(s, c, true); push(o); return 1;
      }
      bool linear; { int t = decide(s, c, &linear); if (t >= 0) return t; }
      std::vector<Expr*> lv; std::unordered_set<Expr*> seen; bool wide = false; tabLeaves(s, c, lv, seen, wide);
      if (!wide && lv.size() <= 4) {
        Expr* best = nullptr; int bd = 1 << 30; for (Expr* t : lv) { int d = distinct(s, t, 257); if (d < bd) bd = d, best = t; }
        if (best && bd <= 64) { if (!forkGroups(s, best)) return -1; continue; }
      }
      bool ft = linear, ff = linear; if (!linear) { ft = feasible(s, {c}, c->vm); ff = feasible(s, {eNot(c)}, c->vm); }   // a linear comparison that is still open: both sides are followed
      if (ft && ff) { State* o = new State(s); addCons(*o, eNot(c)); trail(*o, c, false); push(o); addCons(s, c); trail(s, c, true); return 1; }
      if (ft) return 1; if (ff) return 0; s.dead = true; s.job->pruned++; return -1;
    }
  }
  static std::string str(Expr* e, int d) { char b[64]; if (e->op == O_CONST) { snprintf(b, 64, "%ld", (long)sextw(e->k, e->w)); return b; } if (e->tab) { snprintf(b, 64, "t%d.%u", e->var, e->tab->id); return b; } if (!d) return "..."; snprintf(b, 64, "(%d:%d/%d", e->op, e->w, (int)e->k); std::string r = b; for (int i = 0; i < e->nk; i++) r += " " + str(e->kid[i], d - 1); return r + ")"; }
  bool check(State& s, Expr* c, const std::string& msg) {
    s.job->asserts++;
    c = simp(s, c);
    if (c->op == O_CONST) { if (c->k & 1) return true; violation(s, "assert", msg); s.dead = true; return false; }
    if (c->undef) return fail(s, "uninitialised", "an observed value depends on uninitialised memory: " + msg);
    s.job->assertsSym++; if (decide(s, c) == 1) return true;
    std::vector<Expr*> cs = s.cons; cs.push_back(eNot(c));
    int r = z3Check(z, cs, s.dom, s.vw, nullptr);
    if (r < 0) { if (getenv("SX_DEBUG")) fprintf(stderr, "unknown: %s\n", str(c, 12).c_str()); unsupported(s, "solver unknown on assertion"); return false; }
    if (r == 1) {
      violation(s, "assert", msg, eNot(c));
      if (!feasible(s, {c}, c->vm)) { s.dead = true; return false; }
      addCons(s, c);
    }
    return true;
  }
  // -------------------------------------------------- memory access
  Obj* access(State& s, u64 addr, u64 n, bool write, u32& id, u32& off) {
    id = addr >> 32; off = (u32)addr; Obj* o = id ? s.get(id) : nullptr;
    if (!o) { char b[120]; if (addr >> 32 == 0) snprintf(b, 120, "%s through a null pointer", write ? "write" : "read"); else if (addr >= FN_BASE) snprintf(b, 120, "%s of a code address", write ? "write" : "read"); else snprintf(b, 120, "%s through a wild pointer", write ? "write" : "read"); fail(s, "memory", b); return nullptr; }
    if (o->kind >= OK_FREED_HEAP) { fail(s, "memory", std::string(write ? "write to " : "read of ") + (o->kind == OK_FREED_HEAP ? "freed heap memory" : "a dead stack object")); return nullptr; }
    if ((u64)off + n > o->size) { fail(s, "memory", std::string("out-of-bounds ") + (write ? "write" : "read") + (o->kind == OK_GLOBAL ? " of a global" : o->kind == OK_STACK ? " of a stack object" : " of a heap block")); return nullptr; }
    if (write) {
      if (o->ro && !s.initPhase) { fail(s, "memory", "write to constant memory"); return nullptr; }
      if (s.forbidG && !s.guards && o->kind == OK_GLOBAL && !o->tls) { std::string nm = id <= P.globals.size() ? P.globals[id - 1].name : "?"; if (nm.compare(0, 2, "sx") && nm.find("sxm_") == std::string::npos && nm.compare(0, 4, "_ZGV")) { if (getenv("SX_DEBUG")) fprintf(stderr, "global %s\n", nm.c_str()); fail(s, "shared-state", "write to process-wide mutable state"); return nullptr; } }
    }
    return o;
  }
  Val loadBytes(Obj* o, u32 off, unsigned n, unsigned w) {
    u64 v = 0; memcpy(&v, o->data + off, n); u64 t = 0; memcpy(&t, o->tag + off, n);
    if (!t) return VC(v & maskw(w));
    Expr* k[8]; for (unsigned i = 0; i < n; i++) { u8 g = o->tag[off + i]; k[i] = g == 0 ? eConst(o->data[off + i], 8) : g == 1 ? eUndef() : o->symAt(off + i); }
    Expr* e = eConcat(k, n); if (w < 8 * n) e = eExtract(e, 0, w); return fromE(e);
  }
  void storeBytes(Obj* o, u32 off, unsigned n, unsigned w, const Val& v) {
    if (!v.e) { u64 c = v.c; u64 t = 0; memcpy(&t, o->tag + off, n); if (t & 0x0202020202020202ull) for (unsigned i = 0; i < n; i++) if (o->tag[off + i] == 2) o->clrSym(off + i); memcpy(o->data + off, &c, n); memset(o->tag + off, 0, n); return; }
    Expr* e = toE(v, 8 * n > w ? w : 8 * n); if (e->w < 8 * n) e = eExt(O_ZEXT, e, 8 * n);
    for (unsigned i = 0; i < n; i++) { Expr* b = eExtract(e, 8 * i, 8); putByte(o, off + i, b); }
  }
  void putByte(Obj* o, u32 off, Expr* b) {
    if (o->tag[off] == 2 && b->op <= O_CONST) o->clrSym(off);
    if (b->op == O_CONST) { if (o->tag[off] == 2) o->clrSym(off); o->data[off] = b->k; o->tag[off] = 0; }
    else if (b->op == O_UNDEF) { if (o->tag[off] == 2) o->clrSym(off); o->tag[off] = 1; }
    else { o->tag[off] = 2; o->setSym(off, b); }
  }
  bool load(State& s, Val addr, unsigned n, unsigned w, Val& out) {
    if (addr.e) {
      Expr* e = addr.e->undef ? addr.e : simp(s, addr.e);
      while (!e->undef && e->op != O_CONST && !e->tab) {   // several bytes: settle the oldest (a scanner state before the next character)
        std::vector<Expr*> lv; std::unordered_set<Expr*> seen; bool wide = false; tabLeaves(s, e, lv, seen, wide); if (lv.size() < 2) break;
        Expr* best = lv[0]; for (Expr* t : lv) if (t->var < best->var) best = t;
        if (!forkGroups(s, best)) return false; e = simp(s, e); }
      if (e->tab) {  // table read: exact value for every byte value, no fork when one read-only or unwritten object is addressed
        const Dom d = s.dom[e->var]; u32 id = 0; bool one = true, allc = true; Obj* o = nullptr; std::vector<u64> val(256, 0);
        d.each([&](int i) { u64 a = e->tab->v[i]; if (!id) { id = a >> 32; o = s.get(id); } if (!o || (a >> 32) != id || o->kind >= OK_FREED_HEAP || (u64)(u32)a + n > o->size) { one = false; return false; } u64 t = 0; memcpy(&t, o->tag + (u32)a, n); if (t) { allc = false; return false; } u64 v = 0; memcpy(&v, o->data + (u32)a, n); val[i] = v & maskw(w); return true; });
        if (one && allc) { out = fromE(eLoadTab(e, val.data(), w)); return true; }
        if (!one) { // some value is out of bounds: isolate
        }
      }
      addr.e = e; if (e->op == O_CONST) addr = VC(e->k);
      if (!concretize(s, addr, 64)) return false;
    }
    u32 id, off; Obj* o = access(s, addr.c, n, false, id, off); if (!o) return false;
    out = loadBytes(o, off, n, w); return true;
  }
  bool store(State& s, Val addr, unsigned n, unsigned w, const Val& v) {
    if (addr.e && !concretize(s, addr, 64)) return false;
    u32 id, off; Obj* o = access(s, addr.c, n, true, id, off); if (!o) return false;
    o = s.wget(id); storeBytes(o, off, n, w, v); return true;
  }
  bool copy(State& s, u64 d, u64 sr, u64 n) {
    if (!n) return true;
    u32 di, doff, si, soff; Obj* so = access(s, sr, n, false, si, soff); if (!so) return false; Obj* dobj = access(s, d, n, true, di, doff); if (!dobj) return false;
    if (di == si && (d == sr)) return true;
    std::vector<std::pair<u32, Expr*>> sy; bool anyT = false; for (u64 i = 0; i < n && !anyT; i++) anyT = so->tag[soff + i] == 2;
    if (anyT) for (auto& p : so->sym) if (p.first >= soff && p.first < soff + n) sy.push_back({p.first - soff + doff, p.second});
    std::vector<u8> tmp(so->data + soff, so->data + soff + n), tg(so->tag + soff, so->tag + soff + n);
    dobj = s.wget(di);
    if (!dobj->sym.empty()) dobj->sym.erase(std::remove_if(dobj->sym.begin(), dobj->sym.end(), [&](auto& p) { return p.first >= doff && p.first < doff + n; }), dobj->sym.end());
    memcpy(dobj->data + doff, tmp.data(), n); memcpy(dobj->tag + doff, tg.data(), n);
    for (auto& p : sy) dobj->setSym(p.first, p.second);
    return true;
  }
  bool fill(State& s, u64 d, const Val& v, u64 n) {
    if (!n) return true; u32 di, doff; Obj* o = access(s, d, n, true, di, doff); if (!o) return false; o = s.wget(di);
    for (u64 i = 0; i < n; i++) storeBytes(o, doff + i, 1, 8, v); return true;
  }
  u64 alloc(State& s, u64 size, ObjKind k) {
    Obj* o = Obj::make(size, k, 1); int n = 0; for (size_t i = s.frames.size(); i-- > 0 && n < 3;) { const std::string& nm = s.frames[i].f->name; if (nm.compare(0, 3, "_ZS") && nm.compare(0, 4, "_ZNS") && nm.compare(0, 5, "_ZNKS") && !s.frames[i].f->isModel) o->site[n++] = s.frames[i].f->id + 1; }
    u32 id = s.add(o); return (u64)id << 32;
  }
  bool release(State& s, u64 p, ObjKind k) {
    if (!p) return true; u32 id = p >> 32; Obj* o = s.get(id);
    if (!o) return fail(s, "memory", "free of a wild pointer");
    if (o->kind == OK_FREED_HEAP) return fail(s, "memory", "double free");
    if ((u32)p != 0 || o->kind < OK_MALLOC) return fail(s, "memory", "free of a pointer that was not allocated");
    if (o->kind != k) return fail(s, "memory", "allocation and deallocation functions do not match");
    s.setObj(id, &gFreedHeap); return true;
  }
  // -------------------------------------------------- calls
  bool pushFrame(State& s, const Func* f, const std::vector<Val>& args, i32 dst) {
    if (s.frames.size() > 6000) return fail(s, "termination", "recursion deeper than 6000 calls");
    gExecuted[f->id] = 1;
    Frame fr; fr.f = f; fr.pc = 0; fr.base = s.regs.size(); fr.al = s.allocas.size(); fr.dst = dst;
    s.regs.resize(fr.base + f->nregs);
    for (size_t i = 0; i < args.size() && i < f->nparams; i++) s.regs[fr.base + i] = args[i];
    s.frames.push_back(fr); return true;
  }
  std::string cstr(State& s, u64 p) { std::string r; for (;;) { u32 id = p >> 32; Obj* o = s.get(id); u32 off = (u32)p; if (!o || o->kind >= OK_FREED_HEAP || off >= o->size) break; if (o->tag[off] != 0) { r += '?'; } else { if (!o->data[off]) break; r += o->data[off]; } p++; if (r.size() > 4000) break; } return r; }
  void endPath(State& s);
  void run(State& s);
  void loop();
};

static double asD(u64 v, unsigned w) { if (w == 32) { u32 x = v; float f; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static u64 fromD(double d, unsigned w) { if (w == 32) { float f = d; u32 x; memcpy(&x, &f, 4); return x; } u64 v; memcpy(&v, &d, 8); return v; }

void Worker::run(State& s) {
  Job* job = s.job; u64 budget = 0;
  while (!s.dead) {
    if (s.frames.empty()) { endPath(s); return; }
    Frame* fr = &s.frames.back(); const Func* f = fr->f; const Ins* code = f->code.data(); Val* R = s.regs.data() + fr->base; u32 pc = fr->pc;
#define OPV(x) ((x) >= 0 ? R[x] : f->consts[~(x)])
#define SYNC() (fr->pc = pc)
    for (;;) {
      const Ins& n = code[pc];
      s.steps++;
      if (++budget > 65536) { budget = 0; SYNC(); if (job) { if (job->stop || gTimeUp) { job->dropped++; return; } if (s.steps > gMaxSteps) { violation(s, "termination", "no termination within " + std::to_string(gMaxSteps) + " instructions"); return; } } }
      switch (n.op) {
        case I_MOV: R[n.dst] = OPV(n.a); pc++; continue;
        case I_BIN: {
          Val a = OPV(n.a), b = OPV(n.b);
          if (!a.e && !b.e) {
            u64 r, m = maskw(n.w);
            switch (n.sub) {
              case O_ADD: r = (a.c + b.c) & m; if (n.flags) { i64 t; if (__builtin_add_overflow(sextw(a.c, n.w), sextw(b.c, n.w), &t) || t != sextw(r, n.w)) { SYNC(); undefined(s, "signed integer overflow"); } } break;
              case O_SUB: r = (a.c - b.c) & m; if (n.flags) { i64 t; if (__builtin_sub_overflow(sextw(a.c, n.w), sextw(b.c, n.w), &t) || t != sextw(r, n.w)) { SYNC(); undefined(s, "signed integer overflow"); } } break; case O_AND: r = a.c & b.c; break; case O_OR: r = a.c | b.c; break; case O_XOR: r = a.c ^ b.c; break; case O_MUL: r = (a.c * b.c) & m; if (n.flags) { __int128 t = (__int128)sextw(a.c, n.w) * sextw(b.c, n.w); if (t != (__int128)sextw(r, n.w)) { SYNC(); undefined(s, "signed integer overflow"); } } break;
              case O_SHL: case O_LSHR: case O_ASHR: if (b.c >= n.w) { SYNC(); undefined(s, "shift by the width of the operand or more"); } r = evalOp((Op)n.sub, n.w, n.w, a.c, b.c); break;
              case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: if (!b.c) { SYNC(); fail(s, "ub", "division by zero"); goto out; } r = evalOp((Op)n.sub, n.w, n.w, a.c, b.c); break;
              default: r = evalOp((Op)n.sub, n.w, n.w, a.c, b.c); break;
            }
            R[n.dst] = VC(r); pc++; continue;
          }
          SYNC(); a = sv(s, a); b = sv(s, b);
          if (n.sub >= O_UDIV && n.sub <= O_SREM) {
            if (b.e) { int z = branch(s, eBin(O_EQ, toE(b, n.w), eConst(0, n.w))); if (z < 0) goto out; if (z) { fail(s, "ub", "division by zero"); goto out; } }
            else if (!b.c) { fail(s, "ub", "division by zero"); goto out; }
          }
          if (n.flags && (n.sub == O_ADD || n.sub == O_SUB) && job && !f->isModel && !f->harnessFn) {
            Expr *x = toE(a, n.w), *y = toE(b, n.w), *r = eBin((Op)n.sub, x, y);
            if (!r->undef && (r->tab || !noOverflow(s, (Op)n.sub, x, y, n.w))) undefined(s, "signed integer overflow", n.sub == O_ADD ? eBin(O_SLT, eBin(O_AND, eBin(O_XOR, r, x), eBin(O_XOR, r, y)), eConst(0, n.w)) : eBin(O_SLT, eBin(O_AND, eBin(O_XOR, x, y), eBin(O_XOR, r, x)), eConst(0, n.w)));
            R[n.dst] = fromE(r); pc++; continue; }
          R[n.dst] = fromE(eBin((Op)n.sub, toE(a, n.w), toE(b, n.w))); pc++; continue; }
        case I_ICMP: {
          Val a = OPV(n.a), b = OPV(n.b);
          if (!a.e && !b.e) { u64 r; switch (n.sub) { case O_EQ: r = a.c == b.c; break; case O_ULT: r = a.c < b.c; break; case O_ULE: r = a.c <= b.c; break; case O_SLT: r = sextw(a.c, n.w) < sextw(b.c, n.w); break; default: r = sextw(a.c, n.w) <= sextw(b.c, n.w); } R[n.dst] = VC(r ^ n.flags); pc++; continue; }
          a = sv(s, a); b = sv(s, b); Expr* e = eBin((Op)n.sub, toE(a, n.w), toE(b, n.w)); if (n.flags) e = eNot(e); R[n.dst] = fromE(e); pc++; continue; }
        case I_SELECT: {
          Val c = OPV(n.a); if (!c.e) { R[n.dst] = (c.c & 1) ? OPV(n.b) : OPV(n.c); pc++; continue; }
          c = sv(s, c); if (!c.e) { R[n.dst] = (c.c & 1) ? OPV(n.b) : OPV(n.c); pc++; continue; }
          R[n.dst] = fromE(eIte(c.e, toE(OPV(n.b), n.w), toE(OPV(n.c), n.w))); pc++; continue; }
        case I_ZEXT: { Val a = OPV(n.a); if (!a.e) R[n.dst] = a; else R[n.dst] = fromE(eExt(O_ZEXT, toE(a, n.w2), n.w)); pc++; continue; }
        case I_SEXT: { Val a = OPV(n.a); if (!a.e) R[n.dst] = VC((u64)sextw(a.c, n.w2) & maskw(n.w)); else R[n.dst] = fromE(eExt(O_SEXT, toE(a, n.w2), n.w)); pc++; continue; }
        case I_TRUNC: { Val a = OPV(n.a); if (!a.e) R[n.dst] = VC(a.c & maskw(n.w)); else R[n.dst] = fromE(eExtract(toE(a, n.w2), 0, n.w)); pc++; continue; }
        case I_GEP: {
          Val a = OPV(n.a); bool sym = a.e; u64 off = n.imm; const GepTerm* g = f->geps.data() + n.x;
          for (int i = 0; i < n.n; i++) { const Val& v = OPV(g[i].r); if (v.e) { sym = true; break; } off += (u64)(sextw(v.c, g[i].w) * g[i].scale); }
          if (!sym) { R[n.dst] = VC(a.c + off); pc++; continue; }
          a = sv(s, a); Expr* e = toE(a, 64); e = eBin(O_ADD, e, eConst(n.imm, 64));
          for (int i = 0; i < n.n; i++) { Val v = sv(s, OPV(g[i].r)); Expr* x = eExt(O_SEXT, toE(v, g[i].w), 64); e = eBin(O_ADD, e, eBin(O_MUL, x, eConst(g[i].scale, 64))); }
          R[n.dst] = fromE(e); pc++; continue; }
        case I_LOAD: {
          Val a = OPV(n.a);
          if (!a.e) {
            u32 id = a.c >> 32, off = (u32)a.c; Obj* o = s.get(id);
            if (o && id && o->kind < OK_FREED_HEAP && (u64)off + n.w2 <= o->size) { R[n.dst] = loadBytes(o, off, n.w2, n.w); pc++; continue; }
          }
          SYNC(); Val v; if (!load(s, a, n.w2, n.w, v)) goto out; R[n.dst] = v; pc++; continue; }
        case I_STORE: { SYNC(); if (!store(s, OPV(n.a), n.w2, n.w, OPV(n.b))) goto out; pc++; continue; }
        case I_BR: pc = n.b; continue;
        case I_CONDBR: {
          Val c = OPV(n.a); int t; if (!c.e) t = c.c & 1; else { SYNC(); t = branch(s, toE(c, 1)); if (t < 0) goto out; }
          pc = t ? n.b : n.c; continue; }
        case I_SWITCH: {
          Val c = OPV(n.a); const SwitchTab& st = f->switches[n.x];
          if (c.e) {
            SYNC(); Expr* e = simp(s, c.e);
            if (e->undef) { fail(s, "uninitialised", "a switch depends on uninitialised memory"); goto out; }
            if (e->op == O_CONST) c = VC(e->k);
            else if (e->tab) {  // group by target
              u64 tgt[256]; const Dom d = s.dom[e->var]; memset(tgt, 0, sizeof tgt);
              d.each([&](int i) { u64 v = e->tab->v[i] & maskw(n.w); auto it = std::lower_bound(st.cases.begin(), st.cases.end(), std::make_pair(v, 0u)); tgt[i] = (it != st.cases.end() && it->first == v) ? it->second : st.def; return true; });
              Expr* t = eLoadTab(e, tgt, 32); u64 tv = 0;
              if (t->op == O_CONST) { pc = t->k; continue; }
              if (!tabConst(s, t, tv)) { if (!s.job) { fprintf(stderr, "fork during init\n"); exit(3); } if (!forkGroups(s, t)) goto out; trail(s, t, true); s.trail.pop_back(); if (!tabConst(s, t, tv)) { fprintf(stderr, "switch?\n"); exit(3); } }
              pc = tv; continue;
            } else {
              // test the cases one by one
              bool done = false;
              for (auto& k : st.cases) { int t = branch(s, eBin(O_EQ, toE(Val{0, e}, n.w), eConst(k.first, n.w))); if (t < 0) goto out; if (t) { pc = k.second; done = true; break; } }
              if (!done) pc = st.def; continue;
            }
          }
          auto it = std::lower_bound(st.cases.begin(), st.cases.end(), std::make_pair(c.c, 0u)); pc = (it != st.cases.end() && it->first == c.c) ? it->second : st.def; continue; }
        case I_CALL: case I_ICALL: {
          SYNC(); const Func* g;
          if (n.op == I_CALL) g = P.funcs[n.imm];
          else { Val p = OPV(n.a); if (p.e && !concretize(s, p, 64)) goto out; u64 k = (p.c - FN_BASE) >> 32; if (p.c < FN_BASE || k >= P.funcs.size() || (u32)p.c) { fail(s, "memory", "call through an invalid function pointer"); goto out; } g = P.funcs[k]; }
          const CallInfo& ci = f->calls[n.x];
          if (g->effect && s.watch && !effect(s, *g, ci)) goto out;
          if (g->builtin >= 0) { if (!gBuiltins[g->builtin](*this, s, n, ci, *g)) goto out; gExecuted[g->id] = 1; if (s.frames.empty()) goto out; 
            if (&s.frames.back() != fr || s.frames.back().f != f || s.frames.back().pc != pc) goto out;  // a builtin pushed a frame or moved pc
            R = s.regs.data() + fr->base; pc++; continue; }
          if (!g->defined) { if (g->name.compare(0, 9, "_ZSt") == 0 && g->name.find("__throw") != std::string::npos) { fail(s, "exception", "a C++ exception escapes: " + g->pretty); goto out; } unsupported(s, "call to unmodelled function " + g->pretty); goto out; }
          if (g->model >= 0) g = P.funcs[g->model];
          if (g->repl >= 0 && (s.split & 2) && job) g = P.funcs[g->repl];   // a harness function stands in for it
          bool open = false; if (g->stub >= 0 && (s.split & 1) && job) for (size_t v = 0; v < s.dom.size() && !open; v++) open = s.vw[v] == 8 && s.dom[v].count() > 1;
          if (open) {
            // Cut: one copy runs the summary for every remaining value; the original runs the real function (with picks).
            State* o = new State(s); const Func* st = P.funcs[g->stub];
            std::vector<Val> av; for (size_t i = 0; i < ci.args.size(); i++) av.push_back(OPV(ci.args[i]));
            o->frames.back().pc = pc + 1; pushFrame(*o, st, av, n.dst); push(o);
            // original: pick one representative of every argument-independent symbolic choice made so far
            for (size_t v = 0; v < s.dom.size(); v++) if (s.vw[v] == 8 && s.dom[v].count() > 1) { Dom d; d.clear(); d.set(s.dom[v].first()); Dom save = s.dom[v]; if (!setDom(s, v, d)) s.dom[v] = save; else s.cuts++; }
            s.split &= ~1;
          }
          if (s.frames.size() > 60000) { fail(s, "termination", "recursion deeper than 60000 calls"); goto out; }
          u32 base = s.regs.size(), curBase = fr->base; s.regs.resize(base + g->nregs); R = s.regs.data() + curBase; Val* NR = s.regs.data() + base;
          std::vector<u32> bv;
          for (size_t i = 0; i < ci.args.size() && i < g->nparams; i++) {
            Val v = OPV(ci.args[i]);
            if (ci.byval[i]) { if (v.e && !concretize(s, v, 64)) { goto out; } u64 na = alloc(s, ci.byval[i], OK_STACK); if (!copy(s, na, v.c, ci.byval[i])) goto out; bv.push_back(na >> 32); v = VC(na); }
            NR[i] = v;
          }
          fr->pc = pc + 1; gExecuted[g->id] = 1;
          Frame nf; nf.f = g; nf.pc = 0; nf.base = base; nf.al = s.allocas.size(); nf.dst = n.dst; for (u32 x : bv) s.allocas.push_back(x);
          s.frames.push_back(nf); goto out; }
        case I_RET: {
          const CallInfo& ci = f->calls[n.x]; Val rv[16]; int k = n.n; for (int i = 0; i < k && i < 16; i++) rv[i] = OPV(ci.args[i]);
          Frame old = *fr; while (s.allocas.size() > old.al) { s.setObj(s.allocas.back(), &gFreedStack); s.allocas.pop_back(); }
          s.frames.pop_back(); s.regs.resize(old.base);
          if (!s.frames.empty() && old.dst >= 0) { Val* PR = s.regs.data() + s.frames.back().base; for (int i = 0; i < k && i < 16; i++) PR[old.dst + i] = rv[i]; }
          goto out; }
        case I_ALLOCA: { Val c = OPV(n.a); if (c.e) { SYNC(); if (!concretize(s, c, 64)) goto out; } u64 sz = n.imm * c.c; if (sz > (64u << 20)) { SYNC(); fail(s, "memory", "huge stack allocation"); goto out; } Obj* o = Obj::make(sz, OK_STACK, 1); u32 id = s.add(o); s.allocas.push_back(id); R[n.dst] = VC((u64)id << 32); pc++; continue; }
        case I_MEMCPY: case I_MEMMOVE: { SYNC(); Val d = OPV(n.a), sr = OPV(n.b), l = OPV(n.c); if ((l.e && !concretize(s, l, 64)) || (d.e && !concretize(s, d, 64)) || (sr.e && !concretize(s, sr, 64))) goto out; if (!copy(s, d.c, sr.c, l.c)) goto out; pc++; continue; }
        case I_MEMSET: { SYNC(); Val d = OPV(n.a), v = OPV(n.b), l = OPV(n.c); if ((l.e && !concretize(s, l, 64)) || (d.e && !concretize(s, d, 64))) goto out; if (!fill(s, d.c, v, l.c)) goto out; pc++; continue; }
        case I_UNREACHABLE: SYNC(); fail(s, n.imm == 2 ? "exception" : "ub", n.imm == 1 ? "trap" : n.imm == 2 ? "exception propagates" : "control reaches an unreachable point (missing return or impossible case)"); goto out;
        case I_MINMAX: {
          Val a = OPV(n.a), b = OPV(n.b); Expr *x = toE(sv(s, a), n.w), *y = toE(sv(s, b), n.w), *r;
          switch (n.sub) { case 0: r = eIte(eBin(O_ULT, x, y), y, x); break; case 1: r = eIte(eBin(O_ULT, x, y), x, y); break; case 2: r = eIte(eBin(O_SLT, x, y), y, x); break; case 3: r = eIte(eBin(O_SLT, x, y), x, y); break; case 4: r = eIte(eBin(O_SLT, x, eConst(0, n.w)), eBin(O_SUB, eConst(0, n.w), x), x); break; case 5: r = eIte(eBin(O_ULT, x, y), eConst(0, n.w), eBin(O_SUB, x, y)); break; default: { Expr* t = eBin(O_ADD, x, y); r = eIte(eBin(O_ULT, t, x), eConst(~0ull, n.w), t); } }
          R[n.dst] = fromE(r); pc++; continue; }
        case I_OVF: {
          Val a = sv(s, OPV(n.a)), b = sv(s, OPV(n.b)); Expr *x = toE(a, n.w), *y = toE(b, n.w);
          Expr *r, *o; unsigned w = n.w;
          switch (n.sub) {
            case 0: r = eBin(O_ADD, x, y); o = eBin(O_ULT, r, x); break; case 1: r = eBin(O_SUB, x, y); o = eBin(O_ULT, x, y); break;
            case 3: r = eBin(O_ADD, x, y); o = eBin(O_SLT, eBin(O_AND, eBin(O_XOR, r, x), eBin(O_XOR, r, y)), eConst(0, w)); break;
            case 4: r = eBin(O_SUB, x, y); o = eBin(O_SLT, eBin(O_AND, eBin(O_XOR, x, y), eBin(O_XOR, r, x)), eConst(0, w)); break;
            default: {
              r = eBin(O_MUL, x, y);
              if (!a.e && !b.e) { bool of; if (n.sub == 2) { unsigned __int128 t = (unsigned __int128)a.c * b.c; of = (t >> w) != 0; } else { __int128 t = (__int128)sextw(a.c, w) * sextw(b.c, w); of = t != (__int128)sextw((u64)t, w); } o = eConst(of, 1); }
              else if (!b.e && n.sub == 2) { o = b.c == 0 ? eConst(0, 1) : eBin(O_ULT, eConst(maskw(w) / b.c, w), x); }
              else if (!b.e && n.sub == 5 && sextw(b.c, w) > 0) { i64 mx = (i64)(maskw(w) >> 1), mn = -mx - 1, k = sextw(b.c, w); o = eBin(O_OR, eBin(O_SLT, eConst(mx / k, w), x), eBin(O_SLT, x, eConst(mn / k, w))); }
              else { SYNC(); unsupported(s, "symbolic multiplication overflow"); goto out; } }
          }
          R[n.dst] = fromE(r); R[n.dst + 1] = fromE(o); pc++; continue; }
        case I_BITOP: {
          Val a = OPV(n.a), b = n.sub >= 3 && n.sub != 3 ? OPV(n.b) : VC(0), c = n.sub >= 4 ? OPV(n.c) : VC(0);
          if (a.e || b.e || c.e) { SYNC(); if ((a.e && !concretize(s, a, n.w)) || (b.e && !concretize(s, b, n.w)) || (c.e && !concretize(s, c, n.w))) goto out; }
          u64 r = 0; switch (n.sub) { case 0: r = a.c ? __builtin_clzll(a.c) - (64 - n.w) : n.w; break; case 1: r = a.c ? __builtin_ctzll(a.c) : n.w; break; case 2: r = __builtin_popcountll(a.c); break; case 3: r = __builtin_bswap64(a.c) >> (64 - n.w); break; case 4: { unsigned k = c.c % n.w; r = k ? ((a.c << k) | (b.c >> (n.w - k))) & maskw(n.w) : a.c; break; } default: { unsigned k = c.c % n.w; r = k ? ((a.c << (n.w - k)) | (b.c >> k)) & maskw(n.w) : b.c; } }
          R[n.dst] = VC(r); pc++; continue; }
        case I_FBIN: {
          Val a = OPV(n.a), b = OPV(n.b); if (n.sub == 5 && a.e) { R[n.dst] = fromE(eBin(O_XOR, toE(a, n.w), eConst(1ull << (n.w - 1), n.w))); pc++; continue; }
          if (a.e || b.e) { SYNC(); unsupported(s, "symbolic floating point arithmetic"); goto out; }
          double x = asD(a.c, n.w), y = asD(b.c, n.w), r; switch (n.sub) { case 0: r = x + y; break; case 1: r = x - y; break; case 2: r = x * y; break; case 3: r = x / y; break; case 4: r = fmod(x, y); break; case 5: r = -x; break; case 10: r = fabs(x); break; case 11: r = floor(x); break; case 12: r = ceil(x); break; case 13: r = trunc(x); break; case 14: r = sqrt(x); break; default: r = x * y + asD(OPV(n.c).c, n.w); }
          R[n.dst] = VC(fromD(r, n.w)); pc++; continue; }
        case I_FCMP: {
          Val a = OPV(n.a), b = OPV(n.b); if (a.e || b.e) { SYNC(); unsupported(s, "symbolic floating point comparison"); goto out; }
          double x = asD(a.c, n.w), y = asD(b.c, n.w); bool uno = x != x || y != y, r = false;
          bool lt = x < y, eq = x == y, gt = x > y; unsigned p = n.sub; r = (uno && (p & 8)) || (lt && (p & 4)) || (gt && (p & 2)) || (eq && (p & 1)); R[n.dst] = VC(r); pc++; continue; }
        case I_FCAST: {
          Val a = OPV(n.a); if (a.e) { SYNC(); unsupported(s, "symbolic floating point conversion"); goto out; }
          u64 r; switch (n.sub) { case 0: case 1: r = fromD(asD(a.c, n.w2), n.w); break; case 2: r = (u64)asD(a.c, n.w2) & maskw(n.w); break; case 3: r = (u64)(i64)asD(a.c, n.w2) & maskw(n.w); break; case 4: r = fromD((double)a.c, n.w); break; default: r = fromD((double)sextw(a.c, n.w2), n.w); } R[n.dst] = VC(r); pc++; continue; }
        default: SYNC(); unsupported(s, "instruction: " + (n.x < P.unsup.size() ? P.unsup[n.x] : std::string("?"))); goto out;
      }
    }
  out:;
  }
}

void Worker::sample(State& s, std::vector<std::vector<std::pair<std::string, u64>>>& to, size_t lim) {
  Job* j = s.job; { std::lock_guard<std::mutex> g(j->m); if (to.size() >= lim) return; }
  std::vector<std::pair<std::string, u64>> in; std::map<int, u64> m; if (!s.cons.empty() && !quickModel(s, s.cons, m) && z3Check(z, s.cons, s.dom, s.vw, &m) != 1) return;
  inputsOf(s, m, in); std::lock_guard<std::mutex> g(j->m); if (to.size() < lim) to.push_back(in);
}
void Worker::endPath(State& s) {
  Job* j = s.job; if (!j) return; u64 pn = j->paths++; j->reach |= s.reach; j->cuts += s.cuts;
  u64 mx = j->maxSteps; while (s.steps > mx && !j->maxSteps.compare_exchange_weak(mx, s.steps)) {}
  if (gSamples && ((pn & (pn - 1)) == 0 || pn % gSampleEvery == 0)) sample(s, j->samples, gSamples);
  if (gAuditEvery && pn % gAuditEvery == 0) {
    // Z3 re-decides the whole path structurally: the decisions taken on it must be jointly satisfiable,
    // and the byte domains computed along the way must be implied by them.
    std::vector<Expr*> cs; for (auto& t : s.trail) { Expr* c = t.first; if (c->w == 1) cs.push_back(t.second ? c : eNot(c)); }
    for (Expr* c : s.cons) cs.push_back(c);
    if (!cs.empty()) { gSolver.audits++; std::map<int, u64> m; if (!s.cons.empty() && quickModel(s, cs, m)) return; int r = z3Check(z, cs, s.dom, s.vw, nullptr, false); if (r == 0) { gAuditBad++; } }
  }
}

void Worker::loop() {
  z = z3New();
  for (;;) {
    State* s = nullptr;
    if (!local.empty()) { s = local.back(); local.pop_back(); }
    else {
      std::unique_lock<std::mutex> g(gQM);
      gHungry++;
      for (;;) {
        if (!gQ.empty()) { s = gQ.front(); gQ.pop_front(); break; }
        if (gNextJob < gJobs.size() && !gTimeUp) {
          Job* j = gJobs[gNextJob++]; j->started = true; j->t0 = now(); s = new State(gBase); s->job = j; s->initPhase = false; j->live++;
          std::vector<Val> a; for (u64 x : j->args) a.push_back(VC(x)); pushFrame(*s, j->entry, a, -1); break; }
        gIdle++; if (gIdle == gThreads) { gDone = true; gQC.notify_all(); gHungry--; return; }
        gQC.wait(g, [] { return gDone || !gQ.empty() || (gNextJob < gJobs.size() && !gTimeUp); }); gIdle--; if (gDone) { gHungry--; return; }
      }
      gHungry--;
    }
    Job* j = s->job;
    if (!gTimeUp && now() > gDeadline) gTimeUp = true;
    if (!j->stop && j->budget > 0 && now() - j->t0 > j->budget) j->stop = true;
    if (j->stop || gTimeUp) j->dropped++; else { u64 st0 = s->steps; run(*s); j->steps += s->steps - st0; }
    delete s;
    if (--j->live == 0) j->t1 = now();
  }
}

// ---------------------------------------------------------------- builtins
#define BI(name) static bool name(Worker& W, State& s, const Ins& n, const CallInfo& ci, const Func& fn)
static Val argv_(State& s, const CallInfo& ci, size_t i) { Frame& fr = s.frames.back(); i32 x = ci.args[i]; return x >= 0 ? s.regs[fr.base + x] : fr.f->consts[~x]; }
static void ret(State& s, const Ins& n, Val v) { if (n.dst >= 0) s.regs[s.frames.back().base + n.dst] = v; }
static bool carg(Worker& W, State& s, const CallInfo& ci, size_t i, u64& out) { Val v = argv_(s, ci, i); if (v.e && !W.concretize(s, v, 64)) return false; out = v.c; return true; }
static int newVar(State& s, unsigned w, const std::string& label, const Dom* d) { int i = s.vw.size(); if (i >= MAXVARS) return -1; s.vw.push_back(w); s.vlabel.push_back(labelId(label)); Dom f{{~0ull, ~0ull, ~0ull, ~0ull}}; s.dom.push_back(d ? *d : f); return i; }
BI(b_byte) { u64 p; if (!carg(W, s, ci, 0, p)) return false; int v = newVar(s, 8, W.cstr(s, p), nullptr); if (v < 0) { W.unsupported(s, "too many symbolic variables"); return false; } ret(s, n, Val{0, eVar(v, 8)}); return true; }
BI(b_u64) { u64 p; if (!carg(W, s, ci, 0, p)) return false; int v = newVar(s, 64, W.cstr(s, p), nullptr); if (v < 0) { W.unsupported(s, "too many symbolic variables"); return false; } ret(s, n, Val{0, eVar(v, 64)}); return true; }
BI(b_choice) { u64 k, p; if (!carg(W, s, ci, 0, k) || !carg(W, s, ci, 1, p)) return false; Dom d; d.clear(); for (u64 i = 0; i < k && i < 256; i++) d.set(i); int v = newVar(s, 8, W.cstr(s, p), &d); if (v < 0) { W.unsupported(s, "too many symbolic variables"); return false; } if (k == 1) { ret(s, n, VC(0)); return true; } ret(s, n, Val{0, eExt(O_ZEXT, eVar(v, 8), 32)}); return true; }
BI(b_assume) { Val c = argv_(s, ci, 0); unsigned w = ci.w[0]; if (!c.e) { if (!c.c) { s.dead = true; s.job->assumeKilled++; return false; } return true; } Expr* e = Worker::toE(c, w); if (w > 1) e = eNot(eBin(O_EQ, e, eConst(0, w))); e = W.simp(s, e); if (e->op == O_CONST) { if (!e->k) { s.dead = true; s.job->assumeKilled++; return false; } return true; }
  if (e->tab) { Dom d; d.clear(); s.dom[e->var].each([&](int i) { if (e->tab->v[i]) d.set(i); return true; }); if (!W.setDom(s, e->var, d)) { s.dead = true; s.job->assumeKilled++; return false; } return true; }
  if (!W.feasible(s, {e}, e->vm)) { s.dead = true; s.job->assumeKilled++; return false; } W.addCons(s, e); return true; }
BI(b_assert) { Val c = argv_(s, ci, 0); unsigned w = ci.w[0]; u64 p; if (!carg(W, s, ci, 1, p)) return false; Expr* e = Worker::toE(c, w); if (w > 1) e = eNot(eBin(O_EQ, e, eConst(0, w))); std::string m = W.cstr(s, p); return W.check(s, e, m); }
BI(b_reach) { u64 k; if (!carg(W, s, ci, 0, k)) return false; s.reach |= 1ull << (k & 63); s.job->reach |= s.reach; return true; }
BI(b_done) { s.frames.clear(); return true; }
BI(b_value) { Val v = argv_(s, ci, 0); if (v.e && !W.concretize(s, v, 64)) return false; ret(s, n, v); return true; }
BI(b_is_sym) { Val v = argv_(s, ci, 0); if (v.e) { Expr* e = W.simp(s, v.e); ret(s, n, VC(e->op != O_CONST)); } else ret(s, n, VC(0)); return true; }
BI(b_pick) { Val v = argv_(s, ci, 0); if (v.e) { Expr* e = W.simp(s, v.e); std::vector<Expr*> lv; std::unordered_set<Expr*> seen; bool wide = false; W.tabLeaves(s, e, lv, seen, wide); for (Expr* t : lv) { Dom d; d.clear(); d.set(s.dom[t->var].first()); if (s.dom[t->var].count() > 1) { Dom sv = s.dom[t->var]; s.cuts++; if (!W.setDom(s, t->var, d)) s.dom[t->var] = sv; } } v.e = W.simp(s, e); if (v.e->op == O_CONST) v = VC(v.e->k); if (v.e && !W.concretize(s, v, 64)) return false; } ret(s, n, v); return true; }
BI(b_simplify) { Val v = argv_(s, ci, 0); if (v.e) v = Worker::fromE(W.simp(s, v.e)); ret(s, n, v); return true; }
BI(b_heap_mark) { s.heapMark = s.nextObj; return true; }
BI(b_check_leaks) {
  u64 p; if (!carg(W, s, ci, 0, p)) return false; s.job->asserts++;
  std::vector<u32> leaked; for (u32 id = s.heapMark; id < s.nextObj; id++) { Obj* o = s.get(id); if (o && o->kind >= OK_MALLOC && o->kind <= OK_NEWARR) leaked.push_back(id); }
  if (leaked.empty()) return true;
  // reachable from globals?
  std::set<u32> reach; std::vector<u32> work; auto scan = [&](Obj* o) { for (u32 i = 0; i + 8 <= o->size; i += 8) { u64 t; memcpy(&t, o->tag + i, 8); if (t) continue; u64 v; memcpy(&v, o->data + i, 8); u32 id = v >> 32; if (v < FN_BASE && id >= s.heapMark && id < s.nextObj && reach.insert(id).second) work.push_back(id); } };
  for (u32 id = 1; id <= P.globals.size(); id++) { Obj* o = s.get(id); if (o && !o->ro) scan(o); }
  while (!work.empty()) { u32 id = work.back(); work.pop_back(); Obj* o = s.get(id); if (o && o->kind < OK_FREED_HEAP) scan(o); }
  for (u32 id : leaked) if (!reach.count(id)) { Obj* o = s.get(id); std::string m = W.cstr(s, p) + ": memory allocated in " + (o->site[0] ? P.funcs[o->site[0] - 1]->pretty : "?") + (o->site[1] ? " < " + P.funcs[o->site[1] - 1]->pretty : "") + " is never freed"; W.violation(s, "leak", m); s.dead = true; return false; }
  return true; }
BI(b_forbid) { u64 k; if (!carg(W, s, ci, 0, k)) return false; s.forbidG = k; return true; }
static u64 gStderr;
bool Worker::effect(State& s, const Func& g, const CallInfo& ci) {
  if (g.effect > 1) { size_t i = g.effect >= 100 ? g.effect - 100 : g.effect - 2; Val v = i < ci.args.size() ? argv_(s, ci, i) : VC(0); if (!v.e && (g.effect >= 100 ? v.c == 2 : v.c == gStderr)) { s.errOut = true; return true; } }
  fail(s, "effect", "side effect: the call reaches outside, through " + g.pretty); return false;
}
BI(b_watch) { u64 k; if (!carg(W, s, ci, 0, k)) return false; if (k) s.errOut = false; s.watch = k; ret(s, n, VC(s.errOut)); return true; }
BI(b_effect) { u64 k; if (!carg(W, s, ci, 0, k)) return false; if (!s.watch) return true; if (k == 2) { s.errOut = true; return true; } return W.fail(s, "effect", "side effect: output to standard output"); }
BI(b_guard) { u64 k; if (!carg(W, s, ci, 0, k)) return false; if (k) s.guards++; else if (s.guards) s.guards--; return true; }
BI(b_split) { u64 k; if (!carg(W, s, ci, 0, k)) return false; s.split = k; return true; }
BI(b_fail) { u64 p; if (!carg(W, s, ci, 0, p)) return false; s.job->asserts++; return W.fail(s, "assert", W.cstr(s, p)); }
BI(b_uf_double) { u64 p, l; if (!carg(W, s, ci, 0, p) || !carg(W, s, ci, 1, l)) return false; std::vector<Expr*> k; bool allc = true; std::string t; if (l > (1u << 17)) { W.unsupported(s, "long float literal"); return false; } for (u64 i = 0; i < l; i++) { Val v; if (!W.load(s, VC(p + i), 1, 8, v)) return false; v = W.sv(s, v); if (v.e) allc = false; else { t += (char)v.c; if (k.empty() && v.c == '0' && i + 1 < l) continue; } k.push_back(Worker::toE(v, 8)); } if (!allc && k.size() > 60) { W.unsupported(s, "long float literal"); return false; } if (allc) { double d = strtod(t.c_str(), nullptr); u64 b; memcpy(&b, &d, 8); ret(s, n, VC(b)); } else ret(s, n, Val{0, eUF(1, 64, k.data(), k.size())}); return true; }
BI(b_log) { u64 p; if (!carg(W, s, ci, 0, p)) return false; Val v = argv_(s, ci, 1); std::string t = W.cstr(s, p) + (v.e ? " <sym>" : " " + std::to_string((i64)v.c)); std::lock_guard<std::mutex> g(s.job->m); if (s.job->logs.size() < 200) s.job->logs.push_back(t); return true; }
BI(b_abort) { return W.fail(s, "abort", "the process is terminated by " + fn.pretty); }
BI(b_throw) { return W.fail(s, "exception", "a C++ exception escapes: " + fn.pretty); }
BI(b_nop) { ret(s, n, VC(0)); return true; }
BI(b_one) { ret(s, n, VC(60)); return true; }
BI(b_malloc) { u64 k; if (!carg(W, s, ci, 0, k)) return false; if (k > (64u << 20)) { W.fail(s, "memory", "huge allocation request"); return false; } ret(s, n, VC(W.alloc(s, k, OK_MALLOC))); return true; }
BI(b_calloc) { u64 a, b; if (!carg(W, s, ci, 0, a) || !carg(W, s, ci, 1, b)) return false; if (a * b > (64u << 20)) { W.fail(s, "memory", "huge allocation request"); return false; } u64 p = W.alloc(s, a * b, OK_MALLOC); if (!W.fill(s, p, VC(0), a * b)) return false; ret(s, n, VC(p)); return true; }
BI(b_realloc) { u64 p, k; if (!carg(W, s, ci, 0, p) || !carg(W, s, ci, 1, k)) return false; if (k > (64u << 20)) { W.fail(s, "memory", "huge allocation request"); return false; } u64 q = W.alloc(s, k, OK_MALLOC); if (p) { Obj* o = s.get(p >> 32); if (!o || o->kind != OK_MALLOC || (u32)p) return W.fail(s, "memory", "realloc of an invalid pointer"); u64 m = std::min<u64>(o->size, k); if (!W.copy(s, q, p, m)) return false; if (!W.release(s, p, OK_MALLOC)) return false; } ret(s, n, VC(q)); return true; }
BI(b_sxalloc) { u64 k; if (!carg(W, s, ci, 0, k)) return false; ret(s, n, VC(W.alloc(s, k, OK_STACK))); return true; }
BI(b_new) { u64 k; if (!carg(W, s, ci, 0, k)) return false; if (k > (64u << 20)) { W.fail(s, "memory", "huge allocation request"); return false; } ret(s, n, VC(W.alloc(s, k, OK_NEW))); return true; }
BI(b_newarr) { u64 k; if (!carg(W, s, ci, 0, k)) return false; if (k > (64u << 20)) { W.fail(s, "memory", "huge allocation request"); return false; } ret(s, n, VC(W.alloc(s, k, OK_NEWARR))); return true; }
BI(b_free) { u64 p; if (!carg(W, s, ci, 0, p)) return false; return W.release(s, p, OK_MALLOC); }
BI(b_del) { u64 p; if (!carg(W, s, ci, 0, p)) return false; return W.release(s, p, OK_NEW); }
BI(b_delarr) { u64 p; if (!carg(W, s, ci, 0, p)) return false; return W.release(s, p, OK_NEWARR); }
BI(b_memcpy) { u64 d, sr, l; if (!carg(W, s, ci, 2, l) || !carg(W, s, ci, 0, d) || !carg(W, s, ci, 1, sr)) return false; if (!W.copy(s, d, sr, l)) return false; ret(s, n, VC(d)); return true; }
BI(b_memset) { u64 d, l; if (!carg(W, s, ci, 2, l) || !carg(W, s, ci, 0, d)) return false; Val v = argv_(s, ci, 1); if (v.e) v = Worker::fromE(eExtract(Worker::toE(v, 32), 0, 8)); else v.c &= 255; if (!W.fill(s, d, v, l)) return false; ret(s, n, VC(d)); return true; }
static bool variadic(Worker& W, State& s, const Ins& n, const CallInfo& ci, const char* model, size_t fixed) {
  auto it = P.fidx.find(model); if (it == P.fidx.end() || !P.funcs[it->second]->defined) { W.unsupported(s, std::string("missing model ") + model); return false; }
  size_t na = ci.args.size() - fixed; Obj* o = Obj::make(8 * (na + 1), OK_STACK, 0); std::vector<Val> a; for (size_t i = 0; i < fixed; i++) a.push_back(argv_(s, ci, i));
  for (size_t i = 0; i < na; i++) { Val v = argv_(s, ci, fixed + i); if (!v.e) memcpy(o->data + 8 * i, &v.c, 8); else W.storeBytes(o, 8 * i, 8, 64, v); }
  u32 id = s.add(o); a.push_back(VC((u64)id << 32)); s.frames.back().pc++; i32 dst = n.dst; if (!W.pushFrame(s, P.funcs[it->second], a, dst)) return false; s.allocas.push_back(id); return true; }
BI(b_sscanf) { return variadic(W, s, n, ci, "sxm_sscanf", 2); }
BI(b_snprintf) { return variadic(W, s, n, ci, "sxm_snprintf", 3); }
BI(b_sprintf) { return variadic(W, s, n, ci, "sxm_sprintf", 2); }

static void registerBuiltins() {
  auto& B = gBuiltinByName;
  B["sx_byte"] = b_byte; B["sx_u64"] = b_u64; B["sx_choice"] = b_choice; B["sx_assume"] = b_assume; B["sx_assert"] = b_assert; B["sx_reach"] = b_reach; B["sx_done"] = b_done; B["sx_value"] = b_value; B["sx_is_sym"] = b_is_sym; B["sx_pick"] = b_pick; B["sx_simplify"] = b_simplify; B["sx_heap_mark"] = b_heap_mark; B["sx_check_leaks"] = b_check_leaks; B["sx_forbid_global_writes"] = b_forbid; B["sx_split"] = b_split; B["sx_watch"] = b_watch; B["sx_effect"] = b_effect; B["sx_guard"] = b_guard; B["sx_fail"] = b_fail; B["sx_uf_double"] = b_uf_double; B["sx_log"] = b_log; B["sx_alloc"] = b_sxalloc;
  for (const char* x : {"abort", "exit", "_exit", "_ZSt9terminatev", "__cxa_pure_virtual", "__assert_fail", "quick_exit", "_Exit", "raise", "kill"}) B[x] = b_abort;
  for (const char* x : {"__cxa_throw", "__cxa_rethrow", "_Unwind_Resume", "__cxa_bad_cast", "__cxa_bad_typeid"}) B[x] = b_throw;
  for (const char* x : {"__cxa_atexit", "__cxa_thread_atexit", "fclose", "fflush", "ferror", "clearerr", "fread", "__cxa_guard_abort", "__cxa_end_catch", "__cxa_free_exception", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZSt21ios_base_library_initv", "fileno", "isatty", "_ZSt18uncaught_exceptionv", "_ZSt19uncaught_exceptionsv", "sched_yield", "_ZNSaIcEC1Ev"}) B[x] = b_nop;
  B["__cxa_allocate_exception"] = b_malloc;
  for (const char* x : {"fprintf", "printf", "vfprintf", "fputs", "puts", "fputc", "putchar", "putc", "fwrite", "perror"}) B[x] = b_one;
  B["malloc"] = b_malloc; B["calloc"] = b_calloc; B["realloc"] = b_realloc; B["free"] = b_free; B["_Znwm"] = b_new; B["_Znam"] = b_newarr; B["_ZnwmRKSt9nothrow_t"] = b_new; B["_ZdlPv"] = b_del; B["_ZdlPvm"] = b_del; B["_ZdaPv"] = b_delarr; B["_ZdaPvm"] = b_delarr;
  B["memcpy"] = b_memcpy; B["memmove"] = b_memcpy; B["memset"] = b_memset;
  for (const char* x : {"sscanf", "__isoc23_sscanf", "__isoc99_sscanf"}) B[x] = b_sscanf; B["snprintf"] = b_snprintf; B["sprintf"] = b_sprintf;
  static const std::map<std::string, int> EFF = {{"fprintf", 2}, {"vfprintf", 2}, {"fputs", 3}, {"fputc", 3}, {"putc", 3}, {"fwrite", 5}, {"write", 100}};
  static const std::set<std::string> ANY = {"printf", "vprintf", "puts", "putchar", "fopen", "fopen64", "freopen", "open", "open64", "openat", "creat", "remove", "unlink", "rename", "mkdir", "rmdir", "chdir", "tmpfile", "mkstemp", "read", "fread", "fgets", "getc", "fgetc", "getchar", "scanf", "getline", "system", "popen", "fork", "execv", "execve", "execvp", "signal", "sigaction", "setlocale", "uselocale", "getenv", "secure_getenv", "setenv", "putenv", "unsetenv", "time", "clock", "gettimeofday", "clock_gettime", "rand", "srand", "random", "srandom", "getpid", "sleep", "usleep", "nanosleep", "pthread_create", "socket", "connect", "syslog", "openlog", "fesetround", "feenableexcept", "atexit", "mlockall", "mmap", "alarm"};
  static const char* const CXX[] = {"basic_ofstream", "basic_ifstream", "basic_fstream", "basic_filebuf", "_ZNSt10filesystem", "_ZNSt6chrono3_V2", "_ZNSt13random_device", "_ZNSt6thread", "_ZNSt6locale6global", "this_thread"};
  for (auto* f : P.funcs) {
    if (auto e = EFF.find(f->name); e != EFF.end()) f->effect = e->second; else if (ANY.count(f->name)) f->effect = 1; else if (!f->defined) for (const char* c : CXX) if (f->name.find(c) != std::string::npos) f->effect = 1;
    auto it = B.find(f->name);
    Builtin b = it != B.end() ? it->second : nullptr;
    if (!b && !f->defined && f->name.find("__throw") != std::string::npos) b = b_throw;
    if (b) { f->builtin = gBuiltins.size(); gBuiltins.push_back(b); }
    if (f->defined && f->name.compare(0, 7, "sxrepl_") == 0) { std::string t = f->name.substr(7); for (auto* g : P.funcs) if (g->defined && g != f && g->pretty.compare(0, t.size(), t) == 0 && (g->pretty.size() == t.size() || g->pretty[t.size()] == '(')) g->repl = f->id; }
    if (f->defined && f->name.compare(0, 6, "sxfor_") == 0) { auto it = P.fidx.find(f->name.substr(6)); if (it != P.fidx.end()) P.funcs[it->second]->model = f->id; }
    if (f->defined && f->name.compare(0, 7, "sxstub_") == 0) { std::string t = f->name.substr(7); for (auto* g : P.funcs) if (g->defined && g != f && g->pretty.compare(0, t.size(), t) == 0 && (g->pretty.size() == t.size() || g->pretty[t.size()] == '(')) g->stub = f->id; }
  }
}

int main(int argc, char** argv) {
  std::string bc, jobs, out; for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--bc") bc = nx(); else if (a == "--jobs") jobs = nx(); else if (a == "--out") out = nx(); else if (a == "--threads") gThreads = atoi(nx().c_str()); else if (a == "--deadline") gDeadline = now() + atof(nx().c_str()); else if (a == "--max-steps") gMaxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "--max-viol") gMaxViol = atoi(nx().c_str()); else if (a == "--samples") gSamples = atoi(nx().c_str()); else if (a == "--sample-every") gSampleEvery = atoi(nx().c_str()); else if (a == "--audit") gAuditEvery = atoi(nx().c_str()); }
  mallopt(M_ARENA_MAX, 64); mallopt(M_MMAP_THRESHOLD, 1 << 26); mallopt(M_TRIM_THRESHOLD, 1 << 30);
  gFreedHeap.rc = 1; gFreedHeap.kind = OK_FREED_HEAP; gFreedHeap.size = 0; gFreedStack.rc = 1; gFreedStack.kind = OK_FREED_STACK; gFreedStack.size = 0;
  double t0 = now(); std::string err; if (!lowerModule(bc, P, err)) { fprintf(stderr, "cannot load %s: %s\n", bc.c_str(), err.c_str()); return 3; }
  gExecuted.assign(P.funcs.size(), 0); registerBuiltins();
  // resolve undefined markers in constant pools
  for (auto* f : P.funcs) for (auto& v : f->consts) if (v.e) v = Val{0, eUndef()};
  for (size_t i = 0; i < P.globals.size(); i++) { auto& g = P.globals[i]; if (g.external) { Obj* o = Obj::make(g.size ? g.size : 8, OK_GLOBAL, 0); o->ro = 0; gBase.add(o); continue; } Obj* o = Obj::make(g.size, OK_GLOBAL, 0); memcpy(o->data, g.data.data(), g.size); memcpy(o->tag, g.undef.data(), g.size); o->ro = g.ro; o->tls = g.tls; gBase.add(o); }
  for (const char* nm : {"stdin", "stdout", "stderr"}) if (auto it = P.gidx.find(nm); it != P.gidx.end()) { u64 a = (u64)(it->second + 1) << 32; Obj* o = gBase.get(it->second + 1); if (o && o->size >= 8) { memcpy(o->data, &a, 8); memset(o->tag, 0, 8); } if (!strcmp(nm, "stderr")) gStderr = a; }
  { Worker w; w.z = z3New(); gBase.initPhase = true; 
    auto runInit = [&](u32 fi) { if (!w.pushFrame(gBase, P.funcs[fi], {}, -1)) exit(3); w.run(gBase); if (gBase.dead) { fprintf(stderr, "init died\n"); exit(3); } };
    for (u32 c : P.ctors) runInit(c);
    auto it = P.fidx.find("sx_global_init"); if (it != P.fidx.end() && P.funcs[it->second]->defined) runInit(it->second);
    gBase.steps = 0; gBase.initPhase = false; }
  std::fill(gExecuted.begin(), gExecuted.end(), 0);
  std::ifstream jf(jobs); std::string line;
  while (std::getline(jf, line)) { std::istringstream is(line); std::string nm, en; double b; if (!(is >> nm >> en >> b)) continue; auto it = P.fidx.find(en); if (it == P.fidx.end() || !P.funcs[it->second]->defined) { fprintf(stderr, "no entry %s\n", en.c_str()); return 3; } Job* j = new Job; j->name = nm; j->entry = P.funcs[it->second]; j->budget = b; i64 x; while (is >> x) j->args.push_back((u64)x); gJobs.push_back(j); }
  double t1 = now();
  { std::vector<std::thread> th; for (int i = 0; i < gThreads; i++) th.emplace_back([] { Worker* w = new Worker; w->loop(); }); for (auto& t : th) t.join(); }
  double t2 = now();
  for (auto& k : gForks) fprintf(stderr, "fork %lu %s\n", (unsigned long)k.second, k.first.c_str());
  FILE* o = out.empty() ? stdout : fopen(out.c_str(), "w");
  fprintf(o, "{\"load_s\":%.3f,\"explore_s\":%.3f,\"timeup\":%s,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"solver_s\":%.3f,\"audits\":%lu,\"audit_bad\":%lu,\"exprs\":%lu,\n\"jobs\":[", t1 - t0, t2 - t1, gTimeUp ? "true" : "false", (unsigned long)gSolver.queries, (unsigned long)gSolver.sat, (unsigned long)gSolver.unsat, (unsigned long)gSolver.unknown, gSolver.us / 1e6, (unsigned long)gSolver.audits, (unsigned long)gAuditBad, (unsigned long)exprCount());
  bool first = true;
  for (Job* j : gJobs) {
    bool complete = j->started && j->dropped == 0 && j->unsup == 0 && !j->stop;
    fprintf(o, "%s\n{\"name\":\"%s\",\"complete\":%s,\"started\":%s,\"paths\":%lu,\"forks\":%lu,\"steps\":%lu,\"max_steps\":%lu,\"asserts\":%lu,\"asserts_sym\":%lu,\"cuts\":%lu,\"pruned\":%lu,\"dropped\":%lu,\"unsup\":%lu,\"assume_killed\":%lu,\"reach\":%lu,\"time\":%.3f,\"unsup_msgs\":[", first ? "" : ",", jesc(j->name).c_str(), complete ? "true" : "false", j->started ? "true" : "false", (unsigned long)j->paths, (unsigned long)j->forks, (unsigned long)j->steps, (unsigned long)j->maxSteps, (unsigned long)j->asserts, (unsigned long)j->assertsSym, (unsigned long)j->cuts, (unsigned long)j->pruned, (unsigned long)j->dropped, (unsigned long)j->unsup, (unsigned long)j->assumeKilled, (unsigned long)j->reach, j->t1 - j->t0);
    first = false; bool f2 = true; for (auto& m : j->unsupMsgs) { fprintf(o, "%s\"%s\"", f2 ? "" : ",", jesc(m).c_str()); f2 = false; }
    auto list = [&](const std::vector<std::vector<std::pair<std::string, u64>>>& l) { bool a = true; for (auto& in : l) { fprintf(o, "%s[", a ? "" : ","); a = false; bool b = true; for (auto& p : in) { fprintf(o, "%s[\"%s\",%lu]", b ? "" : ",", jesc(p.first).c_str(), (unsigned long)p.second); b = false; } fprintf(o, "]"); } };
    fprintf(o, "],\"samples\":["); list(j->samples); fprintf(o, "],\"unsup_samples\":["); list(j->unsupSamples);
    fprintf(o, "],\"logs\":["); f2 = true; for (auto& m : j->logs) { fprintf(o, "%s\"%s\"", f2 ? "" : ",", jesc(m).c_str()); f2 = false; }
    fprintf(o, "],\"violations\":["); f2 = true;
    for (auto& v : j->viol) { fprintf(o, "%s\n {\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"stack\":\"%s\",\"inputs\":[", f2 ? "" : ",", jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.where).c_str(), jesc(v.stack).c_str()); f2 = false; bool f3 = true; for (auto& p : v.inputs) { fprintf(o, "%s[\"%s\",%lu]", f3 ? "" : ",", jesc(p.first).c_str(), (unsigned long)p.second); f3 = false; } fprintf(o, "]}"); }
    fprintf(o, "]}");
  }
  fprintf(o, "],\n\"functions\":["); first = true; for (auto* f : P.funcs) if (gExecuted[f->id] && f->defined && !f->isModel && f->builtin < 0) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(f->pretty).c_str()); first = false; }
  fprintf(o, "],\n\"environment\":["); first = true; for (auto* f : P.funcs) if (gExecuted[f->id] && (f->builtin >= 0 || f->isModel)) { fprintf(o, "%s\"%s\"", first ? "" : ",", jesc(f->pretty).c_str()); first = false; }
  fprintf(o, "]}\n"); if (o != stdout) fclose(o); fflush(stdout); _exit(0);
}

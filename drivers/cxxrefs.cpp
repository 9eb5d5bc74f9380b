// Srl::SrdRef / WkRef (C++): random operation sequences against a model, compiled from the repository's headers.
#include "srl.h"
#include <new>
#include <utility>
#undef S
#undef C
#include "drv.h"
struct Pad { long pad; };
struct Node;
static std::map<int, int> g_state; // 1 live, 2 terminated
struct Node {
  long parts[3]; int id; unsigned tag; Srl::SrdRef<Node> next;
  Node(int i) : id(i), tag(0x11fe11fe) { g_state[i] = 1; }
  Node(Node const &) = delete;
  ~Node() { if (tag != 0x11fe11fe) fail("an object is terminated twice"); tag = 0xdead; g_state[id] = 2; }
};
struct Derived : Pad, Node { Derived(int i) : Node(i) {} };
typedef Srl::SrdRef<Node> SR; typedef Srl::WkRef<Node> WR; typedef Srl::SrdRef<Derived> SD; typedef Srl::WkRef<Derived> WD;
enum { N = 4 };
struct World { Srl::SrdRef<long> *p[2]; int mp[2], pp[2]; SR *s[N]; SD *d[2]; WR w[N]; WD wd[2]; int ms[N], md[2], mw[N], mwd[2]; std::map<int,int> next; std::map<int, Node*> obj; int n; };
static World *W;
static std::map<int,int> counts() {
  std::map<int,int> c; std::vector<int> q;
  auto use = [&](int i) { if (i && c[i]++ == 0) q.push_back(i); };
  for (int k = 0; k < N; ++k) use(W->ms[k]);
  for (int k = 0; k < 2; ++k) use(W->md[k]), use(W->mp[k]);
  while (!q.empty()) { int i = q.back(); q.pop_back(); use(W->next[i]); }
  return c;
}
static void check(const char *what) {
  auto c = counts();
  for (auto &p : g_state) if ((p.second == 1) != (c[p.first] > 0)) fail("after %s: object %d is %s, but it has %d references", what, p.first, p.second == 1 ? "live" : "terminated", c[p.first]);
  auto one = [&](const char *n, int k, Node *o, Srl::RefCounter *rc, int m, bool strong) {
    if (!m) { if (strong && (o || rc)) fail("after %s: %s%d should be null", what, n, k); return; }
    if (!c[m]) return;
    if (!o || o->id != m) fail("after %s: %s%d does not refer to object %d", what, n, k, m);
    if (!rc || rc->count != c[m]) fail("after %s: %s%d: the reference count of object %d is %d, expected %d", what, n, k, m, rc ? rc->count : -1, c[m]);
  };
  for (int k = 0; k < N; ++k) one("s", k, W->s[k]->get(), W->s[k]->getRefCounter(), W->ms[k], true), one("w", k, c[W->mw[k]] ? W->w[k].get() : 0, W->w[k].getRefCounter(), c[W->mw[k]] ? W->mw[k] : 0, false);
  for (int k = 0; k < 2; ++k) {
    auto &p = *W->p[k];
    if (!W->mp[k]) { if (p.get() || p.getRefCounter()) fail("after %s: p%d should be null", what, k); continue; }
    if (p.get() != &W->obj[W->mp[k]]->parts[W->pp[k]]) fail("after %s: p%d does not refer to part %d of object %d", what, k, W->pp[k], W->mp[k]);
    if (!p.getRefCounter() || p.getRefCounter()->count != c[W->mp[k]]) fail("after %s: p%d: wrong reference count", what, k);
  }
  for (int k = 0; k < 2; ++k) one("d", k, W->d[k]->get(), W->d[k]->getRefCounter(), W->md[k], true);
}
static void round_(uint64_t r) {
  World w; W = &w; w.n = 0; g_state.clear();
  char what[128];
#define DO(...) do { snprintf(what, sizeof what, __VA_ARGS__); opf("%s", what); } while (0)
  for (int k = 0; k < N; ++k) w.s[k] = new SR(), w.ms[k] = w.mw[k] = 0;
  for (int k = 0; k < 2; ++k) w.p[k] = new Srl::SrdRef<long>(), w.mp[k] = w.pp[k] = 0;
  for (int k = 0; k < 2; ++k) w.d[k] = new SD(), w.md[k] = w.mwd[k] = 0;
  int steps = 4 + rnd(r < 3000 ? 10 : 40);
  for (int t = 0; t < steps; ++t) {
    int x = rnd(N), y = rnd(N), z = rnd(2); auto c = counts();
    bool wl = c[w.mw[y]] > 0 || !w.mw[y], wdl = c[w.mwd[z]] > 0 || !w.mwd[z];
    switch (rnd(26)) {
      case 0: { int i = ++w.n; DO("s%d.construct(object %d)", x, i); w.s[x]->construct(i); w.ms[x] = i; break; }
      case 1: { int i = ++w.n; DO("s%d.own(object %d)", x, i); w.s[x]->own(new(malloc(sizeof(Node))) Node(i)); w.ms[x] = i; break; }
      case 2: { int i = ++w.n; DO("d%d.construct(object %d)", z, i); w.d[z]->construct(i); w.md[z] = i; break; }
      case 3: DO("s%d = s%d", x, y); rnd(2) ? (void)(*w.s[x] = *w.s[y]) : w.s[x]->assign(*w.s[y]); w.ms[x] = w.ms[y]; break;
      case 4: DO("s%d = move(s%d)", x, y); *w.s[x] = std::move(*w.s[y]); w.ms[x] = w.ms[y]; break;
      case 5: DO("s%d = d%d", x, z); if (rnd(2)) *w.s[x] = *w.d[z]; else *w.s[x] = std::move(*w.d[z]); w.ms[x] = w.md[z]; break;
      case 6: if (!wl) break; DO("s%d = w%d", x, y); if (rnd(3) == 0) *w.s[x] = WR(w.w[y]); else if (rnd(2)) *w.s[x] = w.w[y]; else w.s[x]->assign(w.w[y]); w.ms[x] = w.mw[y]; break;
      case 7: if (!wdl) break; DO("s%d = wd%d", x, z); if (rnd(2)) *w.s[x] = w.wd[z]; else *w.s[x] = WD(w.wd[z]); w.ms[x] = w.mwd[z]; break;
      case 8: DO("w%d = s%d", x, y); if (rnd(2)) w.w[x] = *w.s[y]; else w.w[x].assign(*w.s[y]); w.mw[x] = w.ms[y]; break;
      case 9: DO("w%d = d%d", x, z); if (rnd(2)) w.w[x] = *w.d[z]; else w.w[x] = std::move(*w.d[z]); w.mw[x] = w.md[z]; break;
      case 10: DO("wd%d = d%d", z, z); w.wd[z] = *w.d[z]; w.mwd[z] = w.md[z]; break;
      case 11: if (!wdl) break; DO("w%d = wd%d", x, z); if (rnd(2)) w.w[x] = w.wd[z]; else w.w[x] = WD(w.wd[z]); w.mw[x] = w.mwd[z]; break;
      case 12: DO("w%d = w%d", x, y); if (rnd(2)) w.w[x] = w.w[y]; else w.w[x].assign(w.w[y]); w.mw[x] = w.mw[y]; break;
      case 13: DO("s%d.release()", x); w.s[x]->release(); w.ms[x] = 0; break;
      case 14: { if (!w.ms[x] || w.ms[y] <= w.ms[x]) break; DO("s%d->next = s%d", x, y); (*w.s[x])->next = *w.s[y]; w.next[w.ms[x]] = w.ms[y]; break; }
      case 15: case 16: { if (!w.ms[x]) break; DO("s%d = s%d->next", x, x); int m = w.next[w.ms[x]]; if (rnd(2)) *w.s[x] = (*w.s[x])->next; else *w.s[x] = std::move((*w.s[x])->next); w.ms[x] = m; break; }
      case 17: { DO("s%d: new reference from s%d", x, y); SR *n; if (rnd(2)) n = new SR(*w.s[y]); else n = new SR(std::move(*w.s[y])); delete w.s[x]; if (x == y) { w.s[x] = n; } else { w.s[x] = n; w.ms[x] = w.ms[y]; } break; }
      case 18: { DO("s%d: new reference from d%d", x, z); SR *n = rnd(2) ? new SR(*w.d[z]) : new SR(std::move(*w.d[z])); delete w.s[x]; w.s[x] = n; w.ms[x] = w.md[z]; break; }
      case 19: { if (!wl) break; DO("s%d: new reference from w%d", x, y); SR *n = rnd(2) ? new SR(w.w[y]) : new SR(std::move(w.w[y])); delete w.s[x]; w.s[x] = n; w.ms[x] = w.mw[y]; break; }
      case 20: { int i = ++w.n; DO("s%d = constructToNew(object %d)", x, i); *w.s[x] = rnd(2) ? SR::constructToNew(i) : SR::ownToNew(new(malloc(sizeof(Node))) Node(i)); w.ms[x] = i; break; }
      case 22: { if (!w.ms[x]) break; int k = rnd(3); DO("p%d = part %d of s%d", z, k, x); w.obj[w.ms[x]] = w.s[x]->get(); w.p[z]->assign(w.s[x]->getRefCounter(), &(*w.s[x])->parts[k]); w.mp[z] = w.ms[x]; w.pp[z] = k; break; }
      case 23: { int o = rnd(2); DO("p%d = p%d", z, o); if (rnd(2)) *w.p[z] = *w.p[o]; else if (rnd(2)) w.p[z]->assign(*w.p[o]); else *w.p[z] = std::move(*w.p[o]); w.mp[z] = w.mp[o]; w.pp[z] = w.pp[o]; break; }
      case 24: { int o = 1 - z; DO("p%d: new reference from p%d", z, o); auto *n = new Srl::SrdRef<long>(*w.p[o]); delete w.p[z]; w.p[z] = n; w.mp[z] = w.mp[o]; w.pp[z] = w.pp[o]; break; }
      case 25: if (rnd(3)) break; DO("p%d.release()", z); w.p[z]->release(); w.mp[z] = 0; break;
      case 21: { DO("s%d.own(its own object)", x); w.s[x]->own(w.s[x]->get()); break; }
    }
    check(what);
    for (int k = 0; k < N; ++k) { if ((*w.s[k] == nullptr) != !w.ms[k] || (*w.s[k] != nullptr) != !!w.ms[k]) fail("after %s: comparison of s%d with nullptr", what, k); }
  }
  for (int k = 0; k < N; ++k) { DO("end of s%d", k); delete w.s[k]; w.ms[k] = 0; w.s[k] = new SR(); check(what); }
  for (int k = 0; k < 2; ++k) { DO("end of d%d", k); delete w.d[k]; w.md[k] = 0; w.d[k] = new SD(); check(what); }
  for (int k = 0; k < 2; ++k) { DO("end of p%d", k); delete w.p[k]; w.mp[k] = 0; w.p[k] = new Srl::SrdRef<long>(); check(what); }
  for (int k = 0; k < 2; ++k) delete w.p[k];
  for (int k = 0; k < N; ++k) delete w.s[k];
  for (int k = 0; k < 2; ++k) delete w.d[k];
}
int main(int argc, char **argv) {
  return drive(argc, argv, [=](uint64_t r) {
    round_(r);
    if (r > 50 && r % 64 == 0) {
      std::vector<std::string>().swap(g_log); g_state.clear();
      for (int i = 1; i < 8; ++i) g_state[i] = 0;
      size_t b0 = __sanitizer_get_current_allocated_bytes();
      for (int t = 0; t < 40; ++t) { SR a, b; a.construct(1); b = a; b.own(new(malloc(sizeof(Node))) Node(2)); a->next = b; a = a->next; SD d; d.construct(3); b = d; a.release(); SR c(b); c.alloc(); new(c.get()) Node(4); }
      if (__sanitizer_get_current_allocated_bytes() > b0 + 200) { opf("40 rounds of construct/own/assign/release on local references"); fail("memory is not released: %zu bytes grew to %zu", b0, __sanitizer_get_current_allocated_bytes()); }
    }
  });
}

// Array[Int] / Array[Probe]: random operation sequences against a value-semantics model.
#include "drv.h"
typedef int64_t L;
struct A { void *p; };
#define OPS(x) extern "C" { void x##_init(A*); void x##_initc(A*,A*); void x##_term(A*); void x##_reserve(A*,L); void x##_opassign(A*,A*); \
  void x##_addall(A*,A*); void x##_remove(A*,L); void x##_slice(A*,A*,L,L); void x##_clear(A*); }
OPS(i) OPS(p)
extern "C" { void i_assign(A*,A*); void i_initv(A*,int,int,int); L i_len(A*); L i_buf(A*); void i_add(A*,int); void i_add3(A*,int,int,int); void i_set(A*,L,int);
  void i_insert(A*,L,int); L i_find(A*,int); int *i_at(A*,L); void p_add(A*,int*); void p_set(A*,L,int*); void p_insert(A*,L,int*); L p_find(A*,int*); }
static std::map<int,long> &lc() { static std::map<int,long> m; return m; }
#define liveCount lc()
static long liveTotal, liveBase; static std::map<int,long> *baseP;
#define baseCount (*baseP)
enum { DEADV = 0x5ead5ead };
static bool bad(int v) { return v == DEADV || v == (int)0xbebebebe || v == (int)0xdededede; }
static void born(int *p, int v) { if (bad(v)) fail("an element is copied from storage that holds no live element"); *p = v; liveCount[v]++; liveTotal++; }
static void dead(int *p) { if (bad(*p) || liveCount[*p] <= 0) fail("an element that is not live is terminated"); liveCount[*p]--; liveTotal--; *p = DEADV; }
extern "C" { void probe_init(int *p) { born(p, 0); } void probe_init_int(int *p, int x) { born(p, x); }
  void probe_copy(int *p, int *r) { born(p, *r); }
  void probe_assign(int *p, int *r) { if (bad(*p) || bad(*r)) fail("assignment involving an element that is not live"); int v = *r; if (liveCount[*p] <= 0) fail("assignment to an element that is not live"); liveCount[*p]--; *p = v; liveCount[v]++; }
  bool probe_eq(int *p, int *r) { if (bad(*p) || bad(*r)) fail("comparison of an element that is not live"); return *p == *r; }
  void probe_term(int *p) { dead(p); } }
enum { N = 5 };
struct Var { A a; bool live = false; std::vector<int> m; };
static Var v[N];
static bool P;   // Probe variant
static void check(const char *after) {
  for (int k = 0; k < N; ++k) if (v[k].live) {
    L n = i_len(&v[k].a);
    if (n != (L)v[k].m.size()) fail("after %s: array %d has length %ld, expected %zu", after, k, (long)n, v[k].m.size());
    if (i_buf(&v[k].a) < n) fail("after %s: array %d: buffer size below the length", after, k);
    for (L j = 0; j < n; ++j) { int x = *i_at(&v[k].a, j); if (x != v[k].m[j]) fail("after %s: array %d element %ld is %d, expected %d", after, k, (long)j, x, v[k].m[j]); }
  }
}
static L pos(size_t n) { switch (rnd(8)) { case 0: return -1; case 1: return (L)n; case 2: return (L)n + 1; case 3: return 0; case 4: return (L)n - 1; case 5: return (L)rnd() ; default: return (L)rnd(n + 1); } }
static void round(uint64_t r) {
  P = r & 1; size_t base = 0;
  int steps = r < 4000 ? 3 + rnd(10) : 5 + rnd(60);
  for (int k = 0; k < N; ++k) v[k].live = false, v[k].m.clear();
  for (int k = 0; k < N; ++k) { P ? p_init(&v[k].a) : i_init(&v[k].a); v[k].live = true; }
  check("initialisation");
  for (int s = 0; s < steps; ++s) {
    int x = rnd(N), y = rnd(N); Var &a = v[x], &b = v[y]; int val = (int)rnd(7) + 1; if (!rnd(9)) val = (int)rnd(); if (bad(val)) val = 1;
    int e; int *ep = &e; char what[96]; size_t n = a.m.size();
    int op = rnd(14);
    if (n > 300 && (op == 0 || op == 1 || op == 2)) op = 9;
#define DO(...) do { snprintf(what, sizeof what, __VA_ARGS__); opf("%s: %s", P ? "Array[Probe]" : "Array[Int]", what); } while (0)
#define WITHE(call) do { if (P) { probe_init_int(ep, val); call; dead(ep); } } while (0)
    switch (op) {
      case 0: case 1: DO("a%d.add(%d)", x, val); if (P) WITHE(p_add(&a.a, ep)); else i_add(&a.a, val); a.m.push_back(val); break;
      case 2: { DO("a%d.add(a%d)", x, y); std::vector<int> t = b.m; if (a.m.size() + t.size() > 600) break; P ? p_addall(&a.a, &b.a) : i_addall(&a.a, &b.a); a.m.insert(a.m.end(), t.begin(), t.end()); break; }
      case 3: { L i = pos(n); DO("a%d.set(%ld, %d)", x, (long)i, val); if (P) WITHE(p_set(&a.a, i, ep)); else i_set(&a.a, i, val); if (i >= 0 && i < (L)n) a.m[i] = val; else a.m.push_back(val); break; }
      case 4: { L i = pos(n); DO("a%d.insert(%ld, %d)", x, (long)i, val); if (P) WITHE(p_insert(&a.a, i, ep)); else i_insert(&a.a, i, val); if (i >= 0 && i < (L)n) a.m.insert(a.m.begin() + i, val); else a.m.push_back(val); break; }
      case 5: { L i = pos(n); DO("a%d.remove(%ld)", x, (long)i); P ? p_remove(&a.a, i) : i_remove(&a.a, i); if (i >= 0 && i < (L)n) a.m.erase(a.m.begin() + i); break; }
      case 6: case 7: { DO("a%d = a%d", x, y); if (P) p_opassign(&a.a, &b.a); else if (rnd(2)) i_opassign(&a.a, &b.a); else i_assign(&a.a, &b.a); std::vector<int> t = b.m; a.m = t; break; }
      case 8: { L i = pos(b.m.size()), c = rnd(4) ? (L)rnd(b.m.size() + 3) : pos(b.m.size()); if (i < 0) i = 0; DO("a%d = a%d.slice(%ld, %ld)", x, y, (long)i, (long)c);
        P ? p_slice(&a.a, &b.a, i, c) : i_slice(&a.a, &b.a, i, c); std::vector<int> t; for (L j = i; j < (L)b.m.size() && c > 0 && (j - i) < c; ++j) t.push_back(b.m[j]); a.m = t; break; }
      case 9: DO("a%d.clear()", x); P ? p_clear(&a.a) : i_clear(&a.a); a.m.clear(); break;
      case 10: { L c = (L)rnd(40) - 2; DO("a%d.reserve(%ld)", x, (long)c); P ? p_reserve(&a.a, c) : i_reserve(&a.a, c); if (i_buf(&a.a) < c) fail("reserve(%ld): capacity is %ld", (long)c, (long)i_buf(&a.a)); break; }
      case 11: { DO("a%d.findPos(%d)", x, val); L q; if (P) WITHE(q = p_find(&a.a, ep)); else q = i_find(&a.a, val); L w = -1; for (size_t j = 0; j < n; ++j) if (a.m[j] == val) { w = j; break; } if (q != w) fail("findPos gives %ld, expected %ld", (long)q, (long)w); break; }
      case 12: { if (x == y) break; DO("a%d~terminate(); a%d~init(a%d)", x, x, y); P ? p_term(&a.a) : i_term(&a.a); P ? p_initc(&a.a, &b.a) : i_initc(&a.a, &b.a); a.m = b.m; break; }
      case 13: { if (P) break; int q = rnd(9), w = rnd(9), z = rnd(9); if (rnd(2)) { DO("a%d.add(3, %d, %d, %d)", x, q, w, z); i_add3(&a.a, q, w, z); } else { DO("a%d~terminate(); a%d~init(3, %d, %d, %d)", x, x, q, w, z); i_term(&a.a); i_initv(&a.a, q, w, z); a.m.clear(); } a.m.push_back(q); a.m.push_back(w); a.m.push_back(z); break; }
    }
    check(what);
  }
  for (int k = 0; k < N; ++k) { opf("a%d~terminate()", k); P ? p_term(&v[k].a) : i_term(&v[k].a); v[k].live = false; check("terminate"); }
  if (P) { if (liveTotal != liveBase) fail("%ld elements are still live after every array was terminated", liveTotal); for (auto &q : liveCount) if (q.second != baseCount[q.first]) fail("element %d: constructed and terminated a different number of times", q.first); liveCount = baseCount; }
}
int main(int argc, char **argv) {
  liveBase = liveTotal; baseP = new std::map<int,long>(liveCount);
  return drive(argc, argv, [](uint64_t r) {
    size_t s0 = 0;
    round(r);
    for (int k = 0; k < N; ++k) std::vector<int>().swap(v[k].m);
    if (r > 50 && r % 64 == 0) {
      // leak accounting on an identical replay of one short sequence
      g_log.clear(); g_log.shrink_to_fit();
      size_t b0 = __sanitizer_get_current_allocated_bytes();
      for (int t = 0; t < 40; ++t) {
        A a, b; i_init(&a); i_init(&b);
        for (int q = 0; q < 6; ++q) i_add(&a, q); i_opassign(&b, &a); i_set(&a, 1, 2); i_slice(&a, &b, 1, 3); i_insert(&a, 0, 1); i_remove(&a, 0); i_opassign(&a, &b); i_remove(&b, 0); i_opassign(&b, &a); i_insert(&b, 1, 4); i_clear(&a); i_reserve(&b, 30); i_addall(&b, &b);
        i_term(&a); i_term(&b);
      }
      size_t b1 = __sanitizer_get_current_allocated_bytes();
      if (b1 > b0 + 40 * 8) { opf("40 times: a.add x6; b = a; a.set(1,2); a = b.slice(1,3); a.insert(0,1); a.remove(0); a = b; b.remove(0); b = a; b.insert(1,4); a.clear(); b.reserve(30); b.add(b); terminate both"); fail("%zu bytes are never freed", b1 - b0); }
    }
  });
}

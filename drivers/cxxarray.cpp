// Srl::Array (C++): random operation sequences against a value-semantics model, compiled from the repository's headers.
#include "srl.h"
#undef S
#undef C
#include "drv.h"
typedef int64_t L;
static long born_, dead_;
struct Probe {
  int v; unsigned tag;
  enum : unsigned { LIVE = 0x11fe11fe, DEAD = 0xdeaddead };
  Probe() : v(0), tag(LIVE) { born_++; }
  Probe(int x) : v(x), tag(LIVE) { born_++; }
  Probe(Probe const &p) { if (p.tag != LIVE) fail("an element is copied from storage that holds no live element"); v = p.v; tag = LIVE; born_++; }
  Probe &operator=(Probe const &p) { if (tag != LIVE || p.tag != LIVE) fail("assignment involving an element that is not live"); v = p.v; return *this; }
  bool operator==(Probe const &p) const { if (tag != LIVE || p.tag != LIVE) fail("comparison of an element that is not live"); return v == p.v; }
  ~Probe() { if (tag != LIVE) fail("an element that is not live is terminated"); tag = DEAD; dead_++; }
};
static int val(int x) { return x; }
static int val(Probe const &p) { if (p.tag != Probe::LIVE) fail("the array holds an element that is not live"); return p.v; }
enum { N = 5 };
static L pos(size_t n) { switch (rnd(8)) { case 0: return -1; case 1: return (L)n; case 2: return (L)n + 1; case 3: return 0; case 4: return (L)n - 1; case 5: return (L)rnd(); default: return (L)rnd(n + 1); } }
template <class T> static void seq(const char *nm, uint64_t r) {
  typedef Srl::Array<T> A;
  struct Var { A *a; std::vector<int> m; } v[N];
  for (int k = 0; k < N; ++k) v[k].a = new A();
  char what[96];
  auto check = [&]() {
    for (int k = 0; k < N; ++k) {
      A const &c = *v[k].a; L n = c.getLength();
      if (n != (L)v[k].m.size()) fail("after %s: array %d has length %ld, expected %zu", what, k, (long)n, v[k].m.size());
      if (c.getBufSize() < n) fail("after %s: array %d: buffer size below the length", what, k);
      for (L j = 0; j < n; ++j) if (val(rnd(2) ? c.at(j) : c(j)) != v[k].m[j]) fail("after %s: array %d element %ld is %d, expected %d", what, k, (long)j, val(c.at(j)), v[k].m[j]);
    }
  };
#define DO(...) do { snprintf(what, sizeof what, __VA_ARGS__); opf("%s: %s", nm, what); } while (0)
  DO("initialisation"); check();
  int steps = r < 4000 ? 3 + rnd(10) : 5 + rnd(60);
  for (int s = 0; s < steps; ++s) {
    int x = rnd(N), y = rnd(N), e = (int)rnd(7) + 1; Var &a = v[x], &b = v[y]; size_t n = a.m.size(); int op = rnd(11);
    switch (op) {
      case 0: case 1: DO("a%d.add(%d)", x, e); a.a->add(T(e)); a.m.push_back(e); break;
      case 2: { L i = pos(n); DO("a%d.insert(%ld, %d)", x, (long)i, e); a.a->insert(i, T(e)); if (i >= 0 && i < (L)n) a.m.insert(a.m.begin() + i, e); else a.m.push_back(e); break; }
      case 3: { L i = pos(n); DO("a%d.remove(%ld)", x, (long)i); a.a->remove(i); if (i >= 0 && i < (L)n) a.m.erase(a.m.begin() + i); break; }
      case 4: case 5: DO("a%d = a%d", x, y); if (rnd(2)) *a.a = *b.a; else a.a->assign(*b.a); if (x != y) a.m = b.m; break;
      case 6: DO("a%d.clear()", x); a.a->clear(); a.m.clear(); break;
      case 7: { L c = (L)rnd(40) - 2; DO("a%d.reserve(%ld)", x, (long)c); a.a->reserve(c); if (a.a->getBufSize() < c) fail("reserve(%ld): capacity is %ld", (long)c, (long)a.a->getBufSize()); break; }
      case 8: { DO("a%d.findPos(%d)", x, e); L q = a.a->findPos(T(e)), w = -1; for (size_t j = 0; j < n; ++j) if (a.m[j] == e) { w = j; break; } if (q != w) fail("findPos gives %ld, expected %ld", (long)q, (long)w); break; }
      case 9: { if (rnd(3)) { if (x == y) break; DO("a%d: copy of a%d", x, y); delete a.a; a.a = new A(*b.a); a.m = b.m; } else { L c = (L)rnd(20) - 2; DO("a%d: Array(%ld, %d)", x, (long)c, e); delete a.a; a.a = new A(c, T(e)); a.m.assign(c > 0 ? c : 0, e); } break; }
      case 10: { L i = pos(n); bool in = i >= 0 && i < (L)n; DO("a%d(%ld) = %d", x, (long)i, e); T &t = rnd(2) ? a.a->at(i) : (*a.a)(i); if (in) { t = T(e); a.m[i] = e; } else for (size_t j = 0; j < n; ++j) if (&t == &((A const*)a.a)->at(j)) fail("an index out of range gives an element"); break; }
    }
    check();
  }
  for (int k = 0; k < N; ++k) { DO("end of a%d", k); delete v[k].a; v[k].m.clear(); }
}
int main(int argc, char **argv) {
  { Srl::Array<Probe> a; Srl::Array<Probe> const &c = a; a.at(0); c.at(0); }
  long d0 = born_ - dead_;
  return drive(argc, argv, [=](uint64_t r) {
    if (r & 1) seq<Probe>("Array<Probe>", r); else seq<int>("Array<Int>", r);
    if (born_ - dead_ != d0) fail("%ld elements are still live after every array was destroyed", born_ - dead_ - d0);
    if (r > 50 && r % 64 == 0) {
      std::vector<std::string>().swap(g_log);
      size_t b0 = __sanitizer_get_current_allocated_bytes();
      for (int t = 0; t < 40; ++t) { Srl::Array<int> a, b, c; for (int i = 0; i < 9; ++i) a.add(i); b = a; b.add(1); b.reserve(99); b.remove(0); c = b; b = a; c.insert(1, 2); a.clear(); b = c; b.at(0) = 3; c = c; Srl::Array<int> d(c); d.add(2); Srl::Array<int> e(3, 4); e = d; }
      if (__sanitizer_get_current_allocated_bytes() > b0 + 200) { opf("40 rounds of add/assign/reserve/remove/insert/at on local arrays"); fail("memory is not released: %zu bytes grew to %zu", b0, __sanitizer_get_current_allocated_bytes()); }
    }
  });
}

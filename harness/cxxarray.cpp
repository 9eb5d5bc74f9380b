// Instantiates Srl::Array (Sources/Srt/Srl/Array.h) for verification; EL=0: Int, EL=1: a class with managed lifetime.
#include "srl.h"
#if EL
struct Probe;
extern "C" { void probe_init(Probe*) noexcept; void probe_copy(Probe*, Probe const*) noexcept; void probe_assign(Probe*, Probe const*) noexcept;
  bool probe_eq(Probe const*, Probe const*) noexcept; void probe_term(Probe*) noexcept; }
struct Probe {
  int v;
  Probe() noexcept { probe_init(this); }
  Probe(Probe const &p) noexcept { probe_copy(this, &p); }
  Probe &operator=(Probe const &p) noexcept { probe_assign(this, &p); return *this; }
  bool operator==(Probe const &p) const noexcept { return probe_eq(this, &p); }
  ~Probe() noexcept { probe_term(this); }
};
typedef Probe E;
typedef Probe const &V;
#define F(x) p_##x
#else
typedef int E;
typedef int V;
#define F(x) i_##x
#endif
typedef Srl::Array<E> A;
typedef Srl::ArchInt L;
extern "C" {
  void F(init)(A *a) { new(a) A(); }
  void F(initc)(A *a, A *b) { new(a) A(*b); }
  void F(initn)(A *a, L n, V v) { new(a) A(n, v); }
  void F(term)(A *a) { a->~A(); }
  L F(len)(A *a) { return a->getLength(); }
  L F(buf)(A *a) { return a->getBufSize(); }
  void F(reserve)(A *a, L n) { a->reserve(n); }
  void F(assign)(A *a, A *b) { a->assign(*b); }
  void F(opassign)(A *a, A *b) { *a = *b; }
  void F(add)(A *a, V v) { a->add(v); }
  void F(insert)(A *a, L i, V v) { a->insert(i, v); }
  void F(remove)(A *a, L i) { a->remove(i); }
  void F(clear)(A *a) { a->clear(); }
  L F(find)(A *a, V v) { return a->findPos(v); }
  E *F(at)(A *a, L i) { return &a->at(i); }
  E *F(op)(A *a, L i) { return &(*a)(i); }
  E const *F(cat)(A const *a, L i) { return &a->at(i); }
  E const *F(cop)(A const *a, L i) { return &(*a)(i); }
}

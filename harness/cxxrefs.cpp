// Instantiates Srl::SrdRef / Srl::WkRef / Srl::RefCounter (Sources/Srt/Srl/refs.h) for verification.
#include "srl.h"
#include <new>
#include <utility>
struct Probe;
extern "C" { void probe_init(Probe*) noexcept; void probe_init_int(Probe*, int) noexcept; void probe_copy(Probe*, Probe const*) noexcept; void probe_term(Probe*) noexcept; }
struct Probe {
  int v;
  Probe() noexcept { probe_init(this); }
  Probe(int x) noexcept { probe_init_int(this, x); }
  Probe(Probe const &p) noexcept { probe_copy(this, &p); }
  ~Probe() noexcept { probe_term(this); }
};
struct Pad { long pad; };
struct Derived : Pad, Probe {};
#undef S
#undef C
typedef Srl::SrdRef<Probe> S;
typedef Srl::SrdRef<Derived> SD;
typedef Srl::WkRef<Probe> W;
typedef Srl::WkRef<Derived> WD;
typedef Srl::RefCounter RC;
extern "C" {
#define COMMON(p, R) \
  void p##init(R *a) { new(a) R(); } \
  void p##initS(R *a, S *b) { new(a) R(*(S const*)b); } \
  void p##initSm(R *a, S *b) { new(a) R(std::move(*b)); } \
  void p##initSD(R *a, SD *b) { new(a) R(*(SD const*)b); } \
  void p##initSDm(R *a, SD *b) { new(a) R(std::move(*b)); } \
  void p##initW(R *a, W *b) { new(a) R(*(W const*)b); } \
  void p##initWm(R *a, W *b) { new(a) R(std::move(*b)); } \
  void p##initWD(R *a, WD *b) { new(a) R(*(WD const*)b); } \
  void p##initWDm(R *a, WD *b) { new(a) R(std::move(*b)); } \
  void p##initcr(R *a, RC *c, Probe *o) { new(a) R(c, o); } \
  void p##term(R *a) { a->~R(); } \
  void p##release(R *a) { a->release(); } \
  void p##assignS(R *a, S *b) { a->assign(*b); } \
  void p##assignW(R *a, W *b) { a->assign(*b); } \
  void p##assigncr(R *a, RC *c, Probe *o) { a->assign(c, o); } \
  void p##setS(R *a, S *b) { *a = *(S const*)b; } \
  void p##setSm(R *a, S *b) { *a = std::move(*b); } \
  void p##setSD(R *a, SD *b) { *a = *(SD const*)b; } \
  void p##setSDm(R *a, SD *b) { *a = std::move(*b); } \
  void p##setW(R *a, W *b) { *a = *(W const*)b; } \
  void p##setWm(R *a, W *b) { *a = std::move(*b); } \
  void p##setWD(R *a, WD *b) { *a = *(WD const*)b; } \
  void p##setWDm(R *a, WD *b) { *a = std::move(*b); } \
  Probe *p##get(R *a) { return a->get(); } \
  RC *p##rc(R *a) { return a->getRefCounter(); } \
  Probe *p##arrow(R *a) { return a->operator->(); } \
  bool p##eq(R *a, Probe *o) { return *a == o; } \
  bool p##eqn(R *a) { return *a == nullptr; } \
  bool p##neqn(R *a) { return *a != nullptr; }
COMMON(s_, S)
COMMON(w_, W)
void s_initown(S *a, Probe *o) { new(a) S(o); }
void s_own(S *a, Probe *o) { a->own(o); }
void s_ownToNew(S *a, Probe *o) { new(a) S(S::ownToNew(o)); }
Probe *s_alloc(S *a) { return a->alloc(); }
void s_allocToNew(S *a) { new(a) S(S::allocToNew()); }
void s_construct(S *a, int x) { a->construct(x); }
void s_constructToNew(S *a, int x) { new(a) S(S::constructToNew(x)); }
}

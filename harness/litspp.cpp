// Wrappers through which the verifier enters the repository's own code (included verbatim below).
#include "@REPO@/Sources/Spp/Ast/Helper.cpp"
#include "@REPO@/Sources/Spp/CodeGen/ExpressionGenerator.cpp"
using namespace Spp;
extern "C" {
unsigned need_int(LongInt v) { return Ast::Helper::_getNeededIntSize(0, v); }
unsigned need_word(LongWord v) { return Ast::Helper::_getNeededWordSize(0, v); }
void *p_needi(Ast::Helper *h) { return &h->getNeededIntSize; }
void *p_needw(Ast::Helper *h) { return &h->getNeededWordSize; }
void *p_intt(Ast::Helper *h) { return &h->getIntType; }
void *p_wordt(Ast::Helper *h) { return &h->getWordType; }
void *p_nullt(Ast::Helper *h) { return &h->getNullType; }
void *p_floatt(Ast::Helper *h) { return &h->getFloatType; }
void *p_chart(Ast::Helper *h) { return &h->getCharType; }
void *p_chararr(Ast::Helper *h) { return &h->getCharArrayType; }
void *p_gen(CodeGen::Generation *g) { return &g->getGeneratedType; }
void *p_intlit(CodeGen::TargetGeneration *g) { return &g->generateIntLiteral; }
void *p_floatlit(CodeGen::TargetGeneration *g) { return &g->generateFloatLiteral; }
void *p_strlit(CodeGen::TargetGeneration *g) { return &g->generateStringLiteral; }
Bool r_int(TiObject *self, Core::Data::Ast::IntegerLiteral *n, CodeGen::Generation *g, CodeGen::Session *s, CodeGen::GenResult &r) { return CodeGen::ExpressionGenerator::_generateIntegerLiteral(self, n, g, s, r); }
Bool r_float(TiObject *self, Core::Data::Ast::FloatLiteral *n, CodeGen::Generation *g, CodeGen::Session *s, CodeGen::GenResult &r) { return CodeGen::ExpressionGenerator::_generateFloatLiteral(self, n, g, s, r); }
Bool r_char(TiObject *self, Core::Data::Ast::CharLiteral *n, CodeGen::Generation *g, CodeGen::Session *s, CodeGen::GenResult &r) { return CodeGen::ExpressionGenerator::_generateCharLiteral(self, n, g, s, r); }
Bool r_str(TiObject *self, Core::Data::Ast::StringLiteral *n, CodeGen::Generation *g, CodeGen::Session *s, CodeGen::GenResult &r) { return CodeGen::ExpressionGenerator::_generateStringLiteral(self, n, g, s, r); }
}
extern "C" {
void set_text(Core::Data::Ast::Text *n, Char *buf, Int *rc) { auto &s = const_cast<Srl::StringBase<Char>&>((Srl::StringBase<Char> const&)n->getValue().getStr()); s.buf = buf; s.refCount = rc; }
void set_helper(CodeGen::ExpressionGenerator *e, Ast::Helper *h) { e->astHelper = h; }
void *p_tg(CodeGen::Session *s) { return s->getTg(); }
void *p_ctx(CodeGen::Session *s) { return s->getTgContext(); }
void *p_ptrfor(Ast::Helper *h) { return &h->getPointerTypeFor; }
void *p_store(Ast::Helper *h) { return h->getNoticeStore(); }
void *p_rtype(CodeGen::GenResult *r) { return &r->astType; }
void *p_rdata(CodeGen::GenResult *r) { return &r->targetData; }
}

// Wrappers through which the verifier enters the repository's own code (included verbatim below).
#include "core.h"
#include "@REPO@/Sources/Core/Processing/Handlers/StringLiteralTokenizingHandler.cpp"
#include <new>
using namespace Core;
using namespace Core::Processing::Handlers;
typedef StringLiteralTokenizingHandler SLH;
extern "C" {
void* sl_make(int dbl) { return new SLH(dbl ? SLH::OuterQuoteType::DOUBLE : SLH::OuterQuoteType::SINGLE); }
void sl_run(SLH *h, Data::Token *t, Word id, WChar const *s, Word n, Data::SourceLocationRecord const &loc) { h->SLH::prepareToken(t, id, s, n, loc); }
}
#define private public
#include "@REPO@/Sources/Core/Basic/basic.cpp"
extern "C" {
int hx_one(WChar c) { return Core::Basic::parseHexDigit(c); }
int hx_many(WChar const *s, Word n) { return Core::Basic::parseHexDigits(s, n); }
}

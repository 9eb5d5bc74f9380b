From ecc4d3b8d34108bd23145e39e8e720d1d1c806bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 01/16] fix: Srl.Array.reserve must not reallocate a buffer
 shared with other arrays

---
 Sources/Srt/Srl/Array.alusus | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Sources/Srt/Srl/Array.alusus b/Sources/Srt/Srl/Array.alusus
index 9be913f..366ec5b 100644
--- a/Sources/Srt/Srl/Array.alusus
+++ b/Sources/Srt/Srl/Array.alusus
@@ -53,7 +53,11 @@ import "Memory";
 
         handler this.reserve(size: ArchInt) {
             if this.data~ptr == 0 this.data~no_deref = ArrayData[T].alloc(size)
-            else if size > this.bufSize this.data~no_deref = ArrayData[T].realloc(this.data, size);
+            else if size > this.bufSize {
+                // Unshare the buffer first to avoid reallocating memory used by other arrays.
+                this._prepareToModify(false);
+                if size > this.bufSize this.data~no_deref = ArrayData[T].realloc(this.data, size);
+            };
         }
 
         handler this.getLength (): ArchInt {
-- 
2.43.0


From f31a6212e118919a69487ea90cb18f3e4d50de20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 02/16] fix: Srl.Array.set must unshare the buffer before
 changing it

---
 Sources/Srt/Srl/Array.alusus | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sources/Srt/Srl/Array.alusus b/Sources/Srt/Srl/Array.alusus
index 366ec5b..abce667 100644
--- a/Sources/Srt/Srl/Array.alusus
+++ b/Sources/Srt/Srl/Array.alusus
@@ -114,6 +114,7 @@ import "Memory";
             if index < 0 || index >= this.getLength() {
                 this.add(item);
             } else {
+                this._prepareToModify(false);
                 this.buf(index)~no_deref = item;
             };
         }
-- 
2.43.0


From d8adeed9425e4b805dc9f3a92c3b676d9a995e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 03/16] fix: assigning a Srl.Array to itself must not empty it

---
 Sources/Srt/Srl/Array.alusus | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sources/Srt/Srl/Array.alusus b/Sources/Srt/Srl/Array.alusus
index abce667..a58f465 100644
--- a/Sources/Srt/Srl/Array.alusus
+++ b/Sources/Srt/Srl/Array.alusus
@@ -71,6 +71,7 @@ import "Memory";
         };
 
         handler this.assign (ary: ref[Array[T]]) {
+            if this.data~ptr == ary.data~ptr return;
             this._release();
             this.data~no_deref = ary.data;
             if this.data~ptr != 0 {
-- 
2.43.0


From 50c000a3adc1c717583351f8cf024781e2546d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 04/16] fix: Srl.Array.add(Array) must index with ArchInt to
 support all lengths

---
 Sources/Srt/Srl/Array.alusus | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sources/Srt/Srl/Array.alusus b/Sources/Srt/Srl/Array.alusus
index a58f465..f5dd428 100644
--- a/Sources/Srt/Srl/Array.alusus
+++ b/Sources/Srt/Srl/Array.alusus
@@ -103,7 +103,7 @@ import "Memory";
         };
 
         handler this.add (items: Array[T]) {
-            def i: Int;
+            def i: ArchInt;
             for i = 0, i < items.getLength(), ++i this.add(items(i));
         };
 
-- 
2.43.0


From e92b87a3fa71053a3d3e7ec5ce871d2d92f07d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:12 +0000
Subject: [PATCH 05/16] fix: unsigned pointer offsets must not be treated as
 negative numbers

---
 Sources/Spp/CodeGen/ExpressionGenerator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Sources/Spp/CodeGen/ExpressionGenerator.cpp b/Sources/Spp/CodeGen/ExpressionGenerator.cpp
index eaca817..32e409b 100644
--- a/Sources/Spp/CodeGen/ExpressionGenerator.cpp
+++ b/Sources/Spp/CodeGen/ExpressionGenerator.cpp
@@ -794,6 +794,10 @@ Bool ExpressionGenerator::_generateArithmeticOp(
       // Adding a boolean to a pointer gives unexpected results since a boolean true may be treated as -1 rather than 1
       // so we need to cast it to 8 bit integer.
       astOp2CastType = expGenerator->astHelper->getIntType(8);
+    } else if (!integerType2->isSigned()) {
+      // The target treats pointer offsets as signed, so unsigned offsets need to be widened first, otherwise big
+      // values end up being negative offsets.
+      astOp2CastType = expGenerator->astHelper->getArchIntType();
     } else {
       astOp2CastType = integerType2;
     }
-- 
2.43.0


From 153d67930a032411e35cc2af7c5e679393256c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:36 +0000
Subject: [PATCH 06/16] fix: the != operator must be true when a floating point
 operand is not a number

---
 Sources/Spp/LlvmCodeGen/TargetGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sources/Spp/LlvmCodeGen/TargetGenerator.cpp b/Sources/Spp/LlvmCodeGen/TargetGenerator.cpp
index f6962c1..4f7c040 100644
--- a/Sources/Spp/LlvmCodeGen/TargetGenerator.cpp
+++ b/Sources/Spp/LlvmCodeGen/TargetGenerator.cpp
@@ -1980,7 +1980,7 @@ Bool TargetGenerator::generateNotEqual(
     result = newSrdObj<Value>(llvmResult, false);
     return true;
   } else if (tgType->isDerivedFrom<FloatType>()) {
-    auto llvmResult = block->getIrBuilder()->CreateFCmpONE(srcValBox1->getLlvmValue(), srcValBox2->getLlvmValue());
+    auto llvmResult = block->getIrBuilder()->CreateFCmpUNE(srcValBox1->getLlvmValue(), srcValBox2->getLlvmValue());
     result = newSrdObj<Value>(llvmResult, false);
     return true;
   } else {
-- 
2.43.0


From ee522e1e016a7076d3c52e4fedad95be83653801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:17 +0000
Subject: [PATCH 07/16] fix: break/continue over several loops must destroy the
 variables of all the scopes left

A loop that is itself the non-block body of another control statement has a scope
of its own on the destruction stack, but break and continue did not count it when
more than one level is skipped, so variables of the outermost scope were never
terminated.
---
 Sources/Spp/CodeGen/CommandGenerator.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Sources/Spp/CodeGen/CommandGenerator.cpp b/Sources/Spp/CodeGen/CommandGenerator.cpp
index 3bb72d3..ba4e84d 100644
--- a/Sources/Spp/CodeGen/CommandGenerator.cpp
+++ b/Sources/Spp/CodeGen/CommandGenerator.cpp
@@ -295,7 +295,8 @@ Bool CommandGenerator::_generateContinueStatement(
   while (steps > 0) {
     if (loopNode->isDerivedFrom<Spp::Ast::WhileStatement>() || loopNode->isDerivedFrom<Spp::Ast::ForStatement>()) {
       if (--steps == 0) break;
-    } else if (loopNode->isDerivedFrom<Spp::Ast::Function>()) {
+    }
+    if (loopNode->isDerivedFrom<Spp::Ast::Function>()) {
       cmdGenerator->astHelper->getNoticeStore()->add(
         newSrdObj<Spp::Notices::InvalidContinueStepsNotice>(astNode->findSourceLocation())
       );
@@ -303,7 +304,8 @@ Bool CommandGenerator::_generateContinueStatement(
     } else if (loopNode->isDerivedFrom<Core::Data::Ast::Scope>()) {
       ++scopeCount;
     } else {
-      // if it's a non-scope body of a control statement we still want to treat it as if it's a scope.
+      // if it's a non-scope body of a control statement (including a loop that is itself the body of another
+      // control statement) we still want to treat it as if it's a scope.
       if (
         ti_cast<Spp::Ast::WhileStatement>(loopNode->getOwner()) != 0 ||
         ti_cast<Spp::Ast::ForStatement>(loopNode->getOwner()) != 0 ||
@@ -343,7 +345,8 @@ Bool CommandGenerator::_generateBreakStatement(
   while (steps > 0) {
     if (loopNode->isDerivedFrom<Spp::Ast::WhileStatement>() || loopNode->isDerivedFrom<Spp::Ast::ForStatement>()) {
       if (--steps == 0) break;
-    } else if (loopNode->isDerivedFrom<Spp::Ast::Function>()) {
+    }
+    if (loopNode->isDerivedFrom<Spp::Ast::Function>()) {
       cmdGenerator->astHelper->getNoticeStore()->add(
         newSrdObj<Spp::Notices::InvalidBreakStepsNotice>(astNode->findSourceLocation())
       );
@@ -351,7 +354,8 @@ Bool CommandGenerator::_generateBreakStatement(
     } else if (loopNode->isDerivedFrom<Core::Data::Ast::Scope>()) {
       ++scopeCount;
     } else {
-      // if it's a non-scope body of a control statement we still want to treat it as if it's a scope.
+      // if it's a non-scope body of a control statement (including a loop that is itself the body of another
+      // control statement) we still want to treat it as if it's a scope.
       if (
         ti_cast<Spp::Ast::WhileStatement>(loopNode->getOwner()) != 0 ||
         ti_cast<Spp::Ast::ForStatement>(loopNode->getOwner()) != 0 ||
-- 
2.43.0


From 0f1efd6a108865786b6aeceb175039150764f21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 08/16] fix: break/continue inside a .{} operator must destroy
 the variables of all scopes left

The number of destruction scopes to leave was counted from the AST, which missed
the scope of the expression statement that a .{} block belongs to, so the
variables of the loop's body were never terminated. Take it from the destruction
stack's depth at the loop instead.
---
 Sources/Spp/CodeGen/CommandGenerator.cpp | 48 ++++++++----------------
 Sources/Spp/CodeGen/DestructionStack.h   |  5 +++
 Sources/Spp/CodeGen/LoopTgContext.h      | 19 +++++++++-
 3 files changed, 39 insertions(+), 33 deletions(-)

diff --git a/Sources/Spp/CodeGen/CommandGenerator.cpp b/Sources/Spp/CodeGen/CommandGenerator.cpp
index ba4e84d..76a2352 100644
--- a/Sources/Spp/CodeGen/CommandGenerator.cpp
+++ b/Sources/Spp/CodeGen/CommandGenerator.cpp
@@ -191,6 +191,7 @@ Bool CommandGenerator::_generateWhileStatement(
 
   SharedPtr<LoopTgContext> loopTgContext;
   if (!session->getTg()->prepareWhileStatement(session->getTgContext(), loopTgContext)) return false;
+  loopTgContext->setOuterDestructionScopeCount(session->getDestructionStack()->getScopeCount());
   session->getEda()->setCodeGenData(astNode, loopTgContext);
 
   // Generate the condition.
@@ -227,6 +228,7 @@ Bool CommandGenerator::_generateForStatement(
 
   SharedPtr<LoopTgContext> loopTgContext;
   if (!session->getTg()->prepareForStatement(session->getTgContext(), loopTgContext)) return false;
+  loopTgContext->setOuterDestructionScopeCount(session->getDestructionStack()->getScopeCount());
   session->getEda()->setCodeGenData(astNode, loopTgContext);
 
   // Generate the condition.
@@ -290,7 +292,6 @@ Bool CommandGenerator::_generateContinueStatement(
   }
 
   // Find the loop statement.
-  Int scopeCount = 0;
   Core::Data::Node *loopNode = astNode;
   while (steps > 0) {
     if (loopNode->isDerivedFrom<Spp::Ast::WhileStatement>() || loopNode->isDerivedFrom<Spp::Ast::ForStatement>()) {
@@ -301,25 +302,18 @@ Bool CommandGenerator::_generateContinueStatement(
         newSrdObj<Spp::Notices::InvalidContinueStepsNotice>(astNode->findSourceLocation())
       );
       return false;
-    } else if (loopNode->isDerivedFrom<Core::Data::Ast::Scope>()) {
-      ++scopeCount;
-    } else {
-      // if it's a non-scope body of a control statement (including a loop that is itself the body of another
-      // control statement) we still want to treat it as if it's a scope.
-      if (
-        ti_cast<Spp::Ast::WhileStatement>(loopNode->getOwner()) != 0 ||
-        ti_cast<Spp::Ast::ForStatement>(loopNode->getOwner()) != 0 ||
-        ti_cast<Spp::Ast::IfStatement>(loopNode->getOwner()) != 0
-      ) {
-        ++scopeCount;
-      }
     }
     loopNode = loopNode->getOwner();
   }
 
-  if (!g->generateVarGroupDestruction(session, session->getDestructionStack()->getScopeStartIndex(-scopeCount))) return false;
-
   auto loopTgContext = session->getEda()->getCodeGenData<LoopTgContext>(loopNode);
+
+  // Destruct the variables of all scopes opened since the beginning of the loop's body. This includes the scopes of
+  // expressions, in case we are inside a `.{}` operator.
+  auto destructionStack = session->getDestructionStack().get();
+  auto scopeIndex = loopTgContext->getOuterDestructionScopeCount();
+  if (!g->generateVarGroupDestruction(session, destructionStack->getScopeStartIndex(scopeIndex))) return false;
+
   return session->getTg()->generateContinue(session->getTgContext(), loopTgContext);
 }
 
@@ -340,7 +334,6 @@ Bool CommandGenerator::_generateBreakStatement(
   }
 
   // Find the loop statement.
-  Int scopeCount = 0;
   Core::Data::Node *loopNode = astNode;
   while (steps > 0) {
     if (loopNode->isDerivedFrom<Spp::Ast::WhileStatement>() || loopNode->isDerivedFrom<Spp::Ast::ForStatement>()) {
@@ -351,27 +344,18 @@ Bool CommandGenerator::_generateBreakStatement(
         newSrdObj<Spp::Notices::InvalidBreakStepsNotice>(astNode->findSourceLocation())
       );
       return false;
-    } else if (loopNode->isDerivedFrom<Core::Data::Ast::Scope>()) {
-      ++scopeCount;
-    } else {
-      // if it's a non-scope body of a control statement (including a loop that is itself the body of another
-      // control statement) we still want to treat it as if it's a scope.
-      if (
-        ti_cast<Spp::Ast::WhileStatement>(loopNode->getOwner()) != 0 ||
-        ti_cast<Spp::Ast::ForStatement>(loopNode->getOwner()) != 0 ||
-        ti_cast<Spp::Ast::IfStatement>(loopNode->getOwner()) != 0
-      ) {
-        ++scopeCount;
-      }
     }
     loopNode = loopNode->getOwner();
   }
 
-  if (!g->generateVarGroupDestruction(session, session->getDestructionStack()->getScopeStartIndex(-scopeCount))) {
-    return false;
-  }
-
   auto loopTgContext = session->getEda()->getCodeGenData<LoopTgContext>(loopNode);
+
+  // Destruct the variables of all scopes opened since the beginning of the loop's body. This includes the scopes of
+  // expressions, in case we are inside a `.{}` operator.
+  auto destructionStack = session->getDestructionStack().get();
+  auto scopeIndex = loopTgContext->getOuterDestructionScopeCount();
+  if (!g->generateVarGroupDestruction(session, destructionStack->getScopeStartIndex(scopeIndex))) return false;
+
   return session->getTg()->generateBreak(session->getTgContext(), loopTgContext);
 }
 
diff --git a/Sources/Spp/CodeGen/DestructionStack.h b/Sources/Spp/CodeGen/DestructionStack.h
index d84f723..4eccbb2 100644
--- a/Sources/Spp/CodeGen/DestructionStack.h
+++ b/Sources/Spp/CodeGen/DestructionStack.h
@@ -49,6 +49,11 @@ class DestructionStack : public TiObject
 
   public: void popScope();
 
+  public: Int getScopeCount() const
+  {
+    return this->scopeIndexes.size();
+  }
+
   public: Int getScopeStartIndex(Int scope) const;
 
   public: void pushItem(SharedPtr<DestructionNode> const &item)
diff --git a/Sources/Spp/CodeGen/LoopTgContext.h b/Sources/Spp/CodeGen/LoopTgContext.h
index f18d851..ffe52d6 100644
--- a/Sources/Spp/CodeGen/LoopTgContext.h
+++ b/Sources/Spp/CodeGen/LoopTgContext.h
@@ -24,10 +24,17 @@ class LoopTgContext : public TiObject
   TYPE_INFO(LoopTgContext, TiObject, "Spp.CodeGen", "Spp", "alusus.org");
 
 
+  //============================================================================
+  // Member Variables
+
+  /// The number of destruction scopes that are open outside of the loop's body.
+  private: Int outerDestructionScopeCount;
+
+
   //============================================================================
   // Constructor & Destructor
 
-  public: LoopTgContext()
+  public: LoopTgContext() : outerDestructionScopeCount(0)
   {
   }
 
@@ -39,6 +46,16 @@ class LoopTgContext : public TiObject
   public: virtual TiObject* getUpdaterContext() const = 0;
   public: virtual TiObject* getBodyContext() const = 0;
 
+  public: void setOuterDestructionScopeCount(Int count)
+  {
+    this->outerDestructionScopeCount = count;
+  }
+
+  public: Int getOuterDestructionScopeCount() const
+  {
+    return this->outerDestructionScopeCount;
+  }
+
 }; // class
 
 } } // namespace
-- 
2.43.0


From e2a1d8cb0b8e1684886590fd41805a1ee783983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:44 +0000
Subject: [PATCH 09/16] fix: subtracting the smallest value of a narrow integer
 from a pointer moved it the wrong way

---
 Sources/Spp/LlvmCodeGen/TargetGenerator.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Sources/Spp/LlvmCodeGen/TargetGenerator.cpp b/Sources/Spp/LlvmCodeGen/TargetGenerator.cpp
index 4f7c040..2b0c00e 100644
--- a/Sources/Spp/LlvmCodeGen/TargetGenerator.cpp
+++ b/Sources/Spp/LlvmCodeGen/TargetGenerator.cpp
@@ -1480,7 +1480,16 @@ Bool TargetGenerator::generateSub(
     result = newSrdObj<Value>(llvmResult, false);
     return true;
   } else if (tgType->isDerivedFrom<PointerType>()) {
-    auto negIndex = block->getIrBuilder()->CreateNeg(srcVal2Box->getLlvmValue());
+    // The offset needs to be widened before it's negated, otherwise negating the smallest value of a narrow integer gives
+    // back that same value. Constants are negated in place as long as their negated value fits.
+    auto index = srcVal2Box->getLlvmValue();
+    auto constIndex = llvm::dyn_cast<llvm::ConstantInt>(index);
+    if (constIndex == 0 || constIndex->isMinValue(true)) {
+      index = block->getIrBuilder()->CreateSExtOrTrunc(
+        index, llvm::Type::getIntNTy(*this->buildTarget->getLlvmContext(), this->buildTarget->getPointerBitCount())
+      );
+    }
+    auto negIndex = block->getIrBuilder()->CreateNeg(index);
     auto llvmResult = block->getIrBuilder()->CreateGEP(
       srcVal1Box->getLlvmValue(),
       llvm::makeArrayRef(std::vector<llvm::Value*>({ negIndex })), ""
-- 
2.43.0


From 3f20cafb86e3146d578060804410bc8b7850298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 10/16] fix: C++ Srl::Array: keep shared buffers intact when
 reserving, self-assigning and accessing elements

---
 Sources/Srt/Srl/Array.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Sources/Srt/Srl/Array.h b/Sources/Srt/Srl/Array.h
index fe31513..ee12565 100644
--- a/Sources/Srt/Srl/Array.h
+++ b/Sources/Srt/Srl/Array.h
@@ -103,7 +103,10 @@ template <class T> class Array
 
   public: void reserve(ArchInt size) {
     if (this->data == 0) this->data = ArrayData<T>::alloc(size);
-    else if (size > this->data->bufSize) this->data = ArrayData<T>::realloc(this->data, size);
+    else if (size > this->data->bufSize) {
+      this->_prepareToModify(false);
+      if (size > this->data->bufSize) this->data = ArrayData<T>::realloc(this->data, size);
+    }
   }
 
   public: ArchInt getLength() const {
@@ -117,6 +120,7 @@ template <class T> class Array
   }
 
   public: void assign (Array<T> const &ary) {
+    if (this->data == ary.data) return;
     this->_release();
     this->data = ary.data;
     if (this->data != 0) {
@@ -175,7 +179,10 @@ template <class T> class Array
 
   public: T& at (ArchInt i) {
     static T dummy;
-    if (i >= 0 && i < this->getLength()) return this->data->buf[i]; else return dummy;
+    if (i >= 0 && i < this->getLength()) {
+      this->_prepareToModify(false);
+      return this->data->buf[i];
+    } else return dummy;
   }
 
   public: T const& at (ArchInt i) const {
-- 
2.43.0


From 5d1b9fb55109decd48558e94a9717319fd399922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 11/16] fix: C++ SrdRef: count the new reference before
 releasing the old one

---
 Sources/Srt/Srl/refs.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Sources/Srt/Srl/refs.h b/Sources/Srt/Srl/refs.h
index 3972523..94e9c1d 100644
--- a/Sources/Srt/Srl/refs.h
+++ b/Sources/Srt/Srl/refs.h
@@ -212,11 +212,12 @@ template<class T> class SrdRef
 
   public: void assign(RefCounter *c, T *r) {
     if (c != this->refCounter) {
+      // Count the new reference first, because releasing the current object might release the new one too.
+      if (c != 0) {
+        ++c->count;
+      }
       this->release();
       this->refCounter = c;
-      if (this->refCounter != 0) {
-        ++this->refCounter->count;
-      }
     }
     this->obj = r;
   }
-- 
2.43.0


From 00354fe32adc1dd98449c77f2780e4451f1e7ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 12/16] fix: Alusus SrdRef: count the new reference before
 releasing the old one

---
 Sources/Srt/Srl/refs_base.alusus | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Sources/Srt/Srl/refs_base.alusus b/Sources/Srt/Srl/refs_base.alusus
index 4c35c9d..3eb7e9b 100644
--- a/Sources/Srt/Srl/refs_base.alusus
+++ b/Sources/Srt/Srl/refs_base.alusus
@@ -170,11 +170,10 @@ import "Spp";
 
         handler this.assign (c: ref[RefCounter], r: ref[T]) {
             if c~ptr != this.refCounter~ptr {
+                // Count the new reference first, because releasing the current object might release the new one too.
+                if c~ptr != 0 { ++c.count };
                 this.release();
                 this.refCounter~ptr = c~ptr;
-                if this.refCounter~ptr != 0 {
-                    ++this.refCounter.count;
-                };
             }
             this.obj~ptr = r~ptr;
         };
-- 
2.43.0


From 7a23738c0ba27fc9858102d4a40d5836c6fe3314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:54 +0000
Subject: [PATCH 13/16] fix: Lexer: repeat terms whose first part may be empty
 (adjacent string literals without spaces)

---
 Sources/Core/Processing/Lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sources/Core/Processing/Lexer.cpp b/Sources/Core/Processing/Lexer.cpp
index e619163..a4587f0 100644
--- a/Sources/Core/Processing/Lexer.cpp
+++ b/Sources/Core/Processing/Lexer.cpp
@@ -742,7 +742,7 @@ Lexer::NextAction Lexer::processMultiplyTerm(LexerState *state, WChar inputChar,
     state->refLevel(currentLevel).posId++;
     // Try the inner route.
     state->pushTermLevel(0, term);
-    NextAction ret = this->processState(state, inputChar, currentLevel+1);
+    NextAction ret = this->processState(state, inputChar, currentLevel);
     if (ret == CONTINUE_NEW_CHAR) {
       if (tryOuter) {
         // If we need to try the outer route as well, then we need to duplicate the state.
-- 
2.43.0


From 92c2897dd32795e80b37c2cb2f99d0c7aa913c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:55 +0000
Subject: [PATCH 14/16] fix: Spp: escape separators in the text arguments of
 template instance paths

---
 Sources/Spp/Ast/NodePathResolver.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Sources/Spp/Ast/NodePathResolver.cpp b/Sources/Spp/Ast/NodePathResolver.cpp
index d12f970..d86685c 100644
--- a/Sources/Spp/Ast/NodePathResolver.cpp
+++ b/Sources/Spp/Ast/NodePathResolver.cpp
@@ -157,7 +157,11 @@ void NodePathResolver::_resolveTemplateInstance(
       if (str == 0) {
         throw EXCEPTION(GenericException, S("Invalid template argument."));
       }
-      path << str->getValue().get();
+      // Separators within the text are escaped so that different arguments always give different paths.
+      for (auto ch = str->getValue().get(); *ch != 0; ++ch) {
+        if (*ch == C(',') || *ch == C('[') || *ch == C(']') || *ch == C('\\')) path << C('\\');
+        path << *ch;
+      }
     } else {
       path << resolver->doResolve(ti_cast<Core::Data::Node>(obj), helper);
     }
-- 
2.43.0


From 19708f7bc72bfc84a61a1d7ddf8dbccde045fd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:55 +0000
Subject: [PATCH 15/16] fix: Spp: do not cut texts and names generated by
 macros at 999 bytes

---
 Sources/Spp/CodeGen/AstProcessor.cpp | 40 +++++++++++-----------------
 Sources/Spp/CodeGen/AstProcessor.h   |  4 +--
 2 files changed, 17 insertions(+), 27 deletions(-)

diff --git a/Sources/Spp/CodeGen/AstProcessor.cpp b/Sources/Spp/CodeGen/AstProcessor.cpp
index 908b718..a25d451 100644
--- a/Sources/Spp/CodeGen/AstProcessor.cpp
+++ b/Sources/Spp/CodeGen/AstProcessor.cpp
@@ -479,10 +479,7 @@ Bool AstProcessor::_interpolateAst_identifier(
         );
         return false;
       }
-      Char newVar[1000];
-      astProcessor->generateStringFromTemplate(
-        obj->getValue().get(), prefixSize, text, suffix, newVar, 1000
-      );
+      Str newVar = astProcessor->generateStringFromTemplate(obj->getValue().get(), prefixSize, text, suffix);
       result = Core::Data::Ast::Identifier::create({
         { S("value"), TiStr(newVar) },
         { S("sourceLocation"), obj->getSourceLocation() }
@@ -544,10 +541,7 @@ Bool AstProcessor::_interpolateAst_stringLiteral(
         );
         return false;
       }
-      Char newVar[1000];
-      astProcessor->generateStringFromTemplate(
-        obj->getValue().get(), prefixSize, text, suffix, newVar, 1000
-      );
+      Str newVar = astProcessor->generateStringFromTemplate(obj->getValue().get(), prefixSize, text, suffix);
       result = Core::Data::Ast::StringLiteral::create({
         { S("value"), TiStr(newVar) },
         { S("sourceLocation"), obj->getSourceLocation() }
@@ -577,8 +571,7 @@ Bool AstProcessor::_interpolateAst_tiStr(
   if (index != -1) {
     auto arg = ti_cast<Core::Data::Ast::Identifier>(args->getElement(index));
     if (arg != 0) {
-      Char newVar[1000];
-      astProcessor->generateStringFromTemplate(obj->get(), prefixSize, arg->getValue().get(), suffix, newVar, 1000);
+      Str newVar = astProcessor->generateStringFromTemplate(obj->get(), prefixSize, arg->getValue().get(), suffix);
       result = TiStr::create(newVar);
     } else {
       astProcessor->astHelper->getNoticeStore()->add(
@@ -674,9 +667,8 @@ Bool AstProcessor::_interpolateAst_binding(
           );
           return false;
         }
-        Char newVar[1000];
-        astProcessor->generateStringFromTemplate(
-          obj->refMember<TiStr>(i).get(), prefixSize, text, suffix, newVar, 1000
+        Str newVar = astProcessor->generateStringFromTemplate(
+          obj->refMember<TiStr>(i).get(), prefixSize, text, suffix
         );
         destObj->refMember<TiStr>(i) = newVar;
       } else {
@@ -752,7 +744,7 @@ Bool AstProcessor::_interpolateAst_dynMapContaining(
   for (Int i = 0; i < obj->getElementCount(); ++i) {
     // Generate the new key value.
     Char key[1000];
-    Char newKey[1000];
+    Str newKey;
     Word prefixSize = 0;
     Char const *suffix = 0;
     astProcessor->parseStringTemplate(obj->getElementKey(i), key, 1000, prefixSize, suffix);
@@ -761,8 +753,8 @@ Bool AstProcessor::_interpolateAst_dynMapContaining(
       // The key can be replaced with the new key.
       auto arg = ti_cast<Core::Data::Ast::Identifier>(args->getElement(index));
       if (arg != 0) {
-        astProcessor->generateStringFromTemplate(
-          obj->getElementKey(i), prefixSize, arg->getValue().get(), suffix, newKey, 1000
+        newKey = astProcessor->generateStringFromTemplate(
+          obj->getElementKey(i), prefixSize, arg->getValue().get(), suffix
         );
         // Make sure the new key isn't already used.
         if (obj->findElementIndex(newKey) != -1) {
@@ -781,7 +773,7 @@ Bool AstProcessor::_interpolateAst_dynMapContaining(
         return false;
       }
     } else {
-      copyStr(obj->getElementKey(i), newKey);
+      newKey = static_cast<Char const*>(obj->getElementKey(i));
     }
     // Generate the value.
     if (obj->getElementHoldMode(i) == HoldMode::SHARED_REF) {
@@ -822,14 +814,14 @@ void AstProcessor::parseStringTemplate(
 }
 
 
-void AstProcessor::generateStringFromTemplate(
-  Char const *prefix, Word prefixSize, Char const *var, Char const *suffix, Char *output, Word outputBufSize
+Str AstProcessor::generateStringFromTemplate(
+  Char const *prefix, Word prefixSize, Char const *var, Char const *suffix
 ) {
-  SbStr result(output);
-  result.assign(S(""), outputBufSize);
-  if (prefixSize > 0) result.append(prefix, prefixSize, outputBufSize);
-  result.append(var, outputBufSize);
-  if (suffix != 0) result.append(suffix, outputBufSize);
+  Str result;
+  if (prefixSize > 0) result.append(prefix, prefixSize);
+  result.append(var);
+  if (suffix != 0) result.append(suffix);
+  return result;
 }
 
 } // namespace
diff --git a/Sources/Spp/CodeGen/AstProcessor.h b/Sources/Spp/CodeGen/AstProcessor.h
index 1708a56..4ec65bc 100644
--- a/Sources/Spp/CodeGen/AstProcessor.h
+++ b/Sources/Spp/CodeGen/AstProcessor.h
@@ -286,9 +286,7 @@ class AstProcessor : public TiObject, public DynamicBinding, public DynamicInter
     Char const *varOpening = S("__"), Char const *varClosing = S("__")
   );
 
-  private: void generateStringFromTemplate(
-    Char const *prefix, Word prefixSize, Char const *var, Char const *suffix, Char *output, Word outputBufSize
-  );
+  private: Str generateStringFromTemplate(Char const *prefix, Word prefixSize, Char const *var, Char const *suffix);
 
   /// @}
 
-- 
2.43.0


From 9015284938b7baa3e76da7ef73e778c17a04f1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:55 +0000
Subject: [PATCH 16/16] fix: Spp: read integer literals of any base in template
 args, sizes, and loop steps

---
 Sources/Spp/Ast/ArrayType.cpp            |  2 +-
 Sources/Spp/Ast/FloatType.cpp            |  2 +-
 Sources/Spp/Ast/IntegerType.cpp          |  2 +-
 Sources/Spp/Ast/Template.cpp             |  2 +-
 Sources/Spp/Ast/ast.cpp                  | 37 ++++++++++++++++++++++++
 Sources/Spp/Ast/ast.h                    |  3 ++
 Sources/Spp/CodeGen/CommandGenerator.cpp |  4 +--
 7 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/Sources/Spp/Ast/ArrayType.cpp b/Sources/Spp/Ast/ArrayType.cpp
index 67c74f9..59fa43e 100644
--- a/Sources/Spp/Ast/ArrayType.cpp
+++ b/Sources/Spp/Ast/ArrayType.cpp
@@ -48,7 +48,7 @@ Word ArrayType::getSize(Helper *helper) const
   if (size == 0) {
     throw EXCEPTION(GenericException, S("Could not find size value."));
   }
-  return std::stol(size->getValue().get());
+  return getIntegerLiteralValue(size);
 }
 
 
diff --git a/Sources/Spp/Ast/FloatType.cpp b/Sources/Spp/Ast/FloatType.cpp
index fdac55c..e7ddd62 100644
--- a/Sources/Spp/Ast/FloatType.cpp
+++ b/Sources/Spp/Ast/FloatType.cpp
@@ -30,7 +30,7 @@ Word FloatType::getBitCount(Helper *helper) const
   if (bitCount == 0) {
     throw EXCEPTION(GenericException, S("Could not find bitCount value."));
   }
-  return std::stol(bitCount->getValue().get());
+  return getIntegerLiteralValue(bitCount);
 }
 
 
diff --git a/Sources/Spp/Ast/IntegerType.cpp b/Sources/Spp/Ast/IntegerType.cpp
index 6c142a1..44bf8ee 100644
--- a/Sources/Spp/Ast/IntegerType.cpp
+++ b/Sources/Spp/Ast/IntegerType.cpp
@@ -32,7 +32,7 @@ Word IntegerType::getBitCount(Helper *helper) const
   if (bitCountText == 0) {
     throw EXCEPTION(GenericException, S("Could not find bitCount value."));
   }
-  return std::stol(bitCountText->getValue().get());
+  return getIntegerLiteralValue(bitCountText);
 }
 
 
diff --git a/Sources/Spp/Ast/Template.cpp b/Sources/Spp/Ast/Template.cpp
index 1a3e614..6059612 100644
--- a/Sources/Spp/Ast/Template.cpp
+++ b/Sources/Spp/Ast/Template.cpp
@@ -150,7 +150,7 @@ Bool Template::matchTemplateVar(
       }
       auto newVar = static_cast<Core::Data::Ast::IntegerLiteral*>(templateInput);
       ASSERT(newVar != 0);
-      return std::stol(newVar->getValue().get()) == std::stol(var->getValue().get());
+      return getIntegerLiteralValue(newVar) == getIntegerLiteralValue(var);
     }
 
     case TemplateVarType::STRING: {
diff --git a/Sources/Spp/Ast/ast.cpp b/Sources/Spp/Ast/ast.cpp
index 41316ac..af64af1 100644
--- a/Sources/Spp/Ast/ast.cpp
+++ b/Sources/Spp/Ast/ast.cpp
@@ -46,6 +46,43 @@ Bool isInjection(Core::Data::Ast::Definition *def)
 }
 
 
+LongWord getIntegerLiteralValue(Core::Data::Ast::IntegerLiteral const *literal)
+{
+  auto src = literal->getValue().get();
+  Int base = 10;
+  if (compareStr(src, S("0b"), 2) == 0 || compareStr(src, S("0B"), 2) == 0) {
+    base = 2;
+    src += 2;
+  } else if (compareStr(src, S("0ن"), 3) == 0) {
+    base = 2;
+    src += 3;
+  } else if (compareStr(src, S("0o"), 2) == 0 || compareStr(src, S("0O"), 2) == 0) {
+    base = 8;
+    src += 2;
+  } else if (compareStr(src, S("0م"), 3) == 0) {
+    base = 8;
+    src += 3;
+  } else if (
+    compareStr(src, S("0h"), 2) == 0 || compareStr(src, S("0H"), 2) == 0 ||
+    compareStr(src, S("0x"), 2) == 0 || compareStr(src, S("0X"), 2) == 0
+  ) {
+    base = 16;
+    src += 2;
+  }
+  LongWord value = 0;
+  while (true) {
+    Int digit = 0;
+    if (*src >= C('0') && *src <= C('9')) digit = *src - C('0');
+    else if (*src >= C('a') && *src <= C('f')) digit = *src - C('a') + 10;
+    else if (*src >= C('A') && *src <= C('F')) digit = *src - C('A') + 10;
+    else break;
+    value = value * base + digit;
+    ++src;
+  }
+  return value;
+}
+
+
 Function* getDummyBuiltInOpFunction()
 {
   static Function func;
diff --git a/Sources/Spp/Ast/ast.h b/Sources/Spp/Ast/ast.h
index 8cb1402..4880f2c 100644
--- a/Sources/Spp/Ast/ast.h
+++ b/Sources/Spp/Ast/ast.h
@@ -120,6 +120,9 @@ Char const* findOperationModifier(Core::Data::Ast::Definition const *def);
 
 Bool isInjection(Core::Data::Ast::Definition *def);
 
+/// Get the value of an integer literal, which can be given in any base and may have a type postfix.
+LongWord getIntegerLiteralValue(Core::Data::Ast::IntegerLiteral const *literal);
+
 Function* getDummyBuiltInOpFunction();
 
 } // namespace
diff --git a/Sources/Spp/CodeGen/CommandGenerator.cpp b/Sources/Spp/CodeGen/CommandGenerator.cpp
index 76a2352..d858a45 100644
--- a/Sources/Spp/CodeGen/CommandGenerator.cpp
+++ b/Sources/Spp/CodeGen/CommandGenerator.cpp
@@ -283,7 +283,7 @@ Bool CommandGenerator::_generateContinueStatement(
 
   // Get the steps.
   auto stepsNode = ti_cast<Core::Data::Ast::IntegerLiteral>(astNode->getSteps().get());
-  auto steps = stepsNode == 0 ? 1 : std::stoi(stepsNode->getValue().get());
+  LongInt steps = stepsNode == 0 ? 1 : Ast::getIntegerLiteralValue(stepsNode);
   if (steps <= 0) {
     cmdGenerator->astHelper->getNoticeStore()->add(
       newSrdObj<Spp::Notices::InvalidContinueStepsNotice>(astNode->findSourceLocation())
@@ -325,7 +325,7 @@ Bool CommandGenerator::_generateBreakStatement(
 
   // Get the steps.
   auto stepsNode = ti_cast<Core::Data::Ast::IntegerLiteral>(astNode->getSteps().get());
-  auto steps = stepsNode == 0 ? 1 : std::stoi(stepsNode->getValue().get());
+  LongInt steps = stepsNode == 0 ? 1 : Ast::getIntegerLiteralValue(stepsNode);
   if (steps <= 0) {
     cmdGenerator->astHelper->getNoticeStore()->add(
       newSrdObj<Spp::Notices::InvalidBreakStepsNotice>(astNode->findSourceLocation())
-- 
2.43.0


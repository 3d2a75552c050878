From 016323a3efc3ac0c25052fe198d7a4ad7b7beaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:19 +0000
Subject: [PATCH 01/90] fix: @alloc and @sizeof used size 0 for a struct, union
 or array-of-struct type name

---
 internals/semantic/semantic_builtin.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index ac35b79..cde1f29 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -44,8 +44,8 @@ func (s *Semantic) analyzeCast(castCall *ast.BuiltinCall) ctypes.Type {
 
 func (s *Semantic) analyzeAlloc(allocCall *ast.BuiltinCall) ctypes.Type {
 	s.throwInvalidOperationForConstant("you can't allocate on constants", allocCall)
-	t := allocCall.TypeParameters[0]
-	s.replaceAnonymous(t)
+	t := s.UnwrapAnonymous(s.replaceAnonymous(allocCall.TypeParameters[0]))
+	allocCall.TypeParameters[0] = t
 	expr := s.analyzeExpression(allocCall.Parameters[0])
 	if !ctypes.IsNumeric(expr) {
 		s.typeMismatchError(allocCall.String(), allocCall.Parameters[0], allocCall.Token, ctypes.I32, expr)
@@ -108,7 +108,7 @@ func (s *Semantic) analyzeSizeOf(sizeOfCall *ast.BuiltinCall) ctypes.Type {
 		s.error("expected one type parameter for sizeOf builtin call", sizeOfCall.Token)
 		return ctypes.TODO()
 	}
-	sizeOfCall.TypeParameters[0] = s.UnwrapAnonymous(sizeOfCall.TypeParameters[0])
+	sizeOfCall.TypeParameters[0] = s.UnwrapAnonymous(s.replaceAnonymous(sizeOfCall.TypeParameters[0]))
 	sizeOfCall.Type = sizeOfCall.TypeParameters[0]
 	return ctypes.I32
 }
-- 
2.43.0


From 2eaa00869abcfba8248d5fb31dbb4b21bdb38360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:55 +0000
Subject: [PATCH 02/90] fix: @realloc sized the block by the pointer instead of
 by its element

---
 internals/compiler/compiler.go         | 3 ++-
 internals/semantic/semantic_builtin.go | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index a2fd942..7105845 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -187,7 +187,8 @@ func (c *Compiler) initializeBuiltinLib() {
 		ptr := c.loadIfPointer(c.compileExpression(call.Parameters[0]))
 		length := c.loadIfPointer(c.compileExpression(call.Parameters[1]))
 		length = c.handleIntegerCast(types.I64, length)
-		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, typeParameter.SizeOf()))
+		elementSize := typeParameter.(*ctypes.Pointer).Inner.SizeOf()
+		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, elementSize))
 		returnedValue := c.block().NewCall(c.realloc(), c.block().NewBitCast(ptr, types.I8Ptr), totalSize)
 		castedValue := c.block().NewBitCast(returnedValue, toReturnType)
 		alloca := c.block().NewAlloca(castedValue.Type())
diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index cde1f29..2861745 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -90,8 +90,12 @@ func (s *Semantic) analyzeRealloc(reallocCall *ast.BuiltinCall) ctypes.Type {
 
 	if !ctypes.IsPointer(t) {
 		s.error("expected pointer type for realloc call", reallocCall.Token)
+		return ctypes.TODO()
 	}
 
+	// the element type must be known because the compiler needs its size
+	t = s.replaceAnonymous(t)
+
 	secondParameter := s.analyzeExpression(reallocCall.Parameters[1])
 
 	if _, isInteger := secondParameter.(*ctypes.Integer); !isInteger {
-- 
2.43.0


From 3631a60171c329010f31dc32e4f336d56ff76887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:02 +0000
Subject: [PATCH 03/90] fix: i1 had size and alignment 0, so allocations of it
 were empty and structs holding it panicked

---
 internals/ctypes/types.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internals/ctypes/types.go b/internals/ctypes/types.go
index b02bae1..a988225 100644
--- a/internals/ctypes/types.go
+++ b/internals/ctypes/types.go
@@ -97,11 +97,12 @@ func (i *Integer) String() string {
 func (_ *Integer) CandiceType() {}
 
 func (i *Integer) SizeOf() int64 {
-	return int64(i.BitSize / 8)
+	// i1 takes a whole byte
+	return int64((i.BitSize + 7) / 8)
 }
 
 func (i *Integer) Alignment() int64 {
-	return int64(i.BitSize / 8)
+	return i.SizeOf()
 }
 
 type UInteger struct {
-- 
2.43.0


From 1d3a28de7d3c9d707d490046c1b1671e2f536590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 04/90] fix: empty structs panicked and unions were laid out
 unaligned, unlike @sizeof and C

---
 internals/compiler/compiler_types.go | 5 ++++-
 internals/ctypes/types.go            | 8 +++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/internals/compiler/compiler_types.go b/internals/compiler/compiler_types.go
index 8113a70..4105a03 100644
--- a/internals/compiler/compiler_types.go
+++ b/internals/compiler/compiler_types.go
@@ -114,7 +114,10 @@ func (c *Compiler) ToLLVMType(t ctypes.Type) types.Type {
 				return union
 			}
 
-			unionType := types.NewArray(uint64(el.SizeOf()), types.I8)
+			// Use integers as wide as the alignment of the union so LLVM lays
+			// it out like ctypes (and C) does.
+			alignment := uint64(el.Alignment())
+			unionType := types.NewArray(uint64(el.SizeOf())/alignment, types.NewInt(alignment*8))
 			return unionType
 		}
 
diff --git a/internals/ctypes/types.go b/internals/ctypes/types.go
index a988225..2d6bd5c 100644
--- a/internals/ctypes/types.go
+++ b/internals/ctypes/types.go
@@ -319,11 +319,13 @@ func (u *Union) SizeOf() int64 {
 		}
 	}
 
-	return max
+	// as in C, the size is a multiple of the alignment so arrays of unions are aligned
+	alignment := u.Alignment()
+	return (max + alignment - 1) / alignment * alignment
 }
 
 func (u *Union) Alignment() int64 {
-	maximumAlignment := int64(0)
+	maximumAlignment := int64(1)
 	for _, t := range u.Fields {
 		alignment := t.Alignment()
 		if alignment > maximumAlignment {
@@ -416,7 +418,7 @@ func (s *Struct) SizeOf() int64 {
 }
 
 func (s *Struct) Alignment() int64 {
-	maximumAlignment := int64(0)
+	maximumAlignment := int64(1)
 	for _, t := range s.Fields {
 		alignment := t.Alignment()
 		if alignment >= maximumAlignment {
-- 
2.43.0


From cd81389449547c1ff50784f36c5a79df5e7a853a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:42 +0000
Subject: [PATCH 05/90] fix: widening an unsigned integer sign-extended it

---
 internals/compiler/compiler.go             |  6 +++---
 internals/compiler/compiler_conversions.go | 12 ++++++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 7105845..4893664 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -186,7 +186,7 @@ func (c *Compiler) initializeBuiltinLib() {
 		toReturnType := c.ToLLVMType(typeParameter)
 		ptr := c.loadIfPointer(c.compileExpression(call.Parameters[0]))
 		length := c.loadIfPointer(c.compileExpression(call.Parameters[1]))
-		length = c.handleIntegerCast(types.I64, length)
+		length = c.handleIntegerCast(types.I64, length, call.Parameters[1].GetType())
 		elementSize := typeParameter.(*ctypes.Pointer).Inner.SizeOf()
 		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, elementSize))
 		returnedValue := c.block().NewCall(c.realloc(), c.block().NewBitCast(ptr, types.I8Ptr), totalSize)
@@ -231,7 +231,7 @@ func (c *Compiler) initializeBuiltinLib() {
 		typeParameter := call.TypeParameters[0]
 		toReturnType := types.NewPointer(c.ToLLVMType(typeParameter))
 		length := c.loadIfPointer(c.compileExpression(call.Parameters[0]))
-		length = c.handleIntegerCast(types.I64, length)
+		length = c.handleIntegerCast(types.I64, length, call.Parameters[0].GetType())
 		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, typeParameter.SizeOf()))
 		returnedValue := c.block().NewCall(c.malloc(), totalSize)
 		castedValue := c.block().NewBitCast(returnedValue, toReturnType)
@@ -1636,7 +1636,7 @@ func (c *Compiler) handleCast(call *ast.BuiltinCall) value.Value {
 		if ctypes.IsFloat(call.TypeParameters[0]) != ctypes.IsFloat(call.Parameters[0].GetType()) {
 			return c.handleFloatIntCast(call.TypeParameters[0], call.Parameters[0].GetType(), variable, toReturnType)
 		}
-		return c.handleNumericBitCast(toReturnType, variable)
+		return c.handleNumericBitCast(toReturnType, variable, call.Parameters[0].GetType())
 	}
 
 	if ctypes.IsNumeric(call.TypeParameters[0]) && ctypes.IsPointer(call.Parameters[0].GetType()) {
diff --git a/internals/compiler/compiler_conversions.go b/internals/compiler/compiler_conversions.go
index 92fcf53..b203fca 100644
--- a/internals/compiler/compiler_conversions.go
+++ b/internals/compiler/compiler_conversions.go
@@ -22,8 +22,8 @@ func (c *Compiler) toBool(value value.Value) value.Value {
 	panic("")
 }
 
-// handleIntegerCast tries to pass variable type to toReturnType
-func (c *Compiler) handleIntegerCast(toReturnType *types.IntType, variable value.Value) value.Value {
+// handleIntegerCast tries to pass variable, which has the candice type variableCandiceType, to toReturnType
+func (c *Compiler) handleIntegerCast(toReturnType *types.IntType, variable value.Value, variableCandiceType ctypes.Type) value.Value {
 	variableType := variable.Type().(*types.IntType)
 	if variableType.BitSize > toReturnType.BitSize {
 		return c.block().NewTrunc(variable, toReturnType)
@@ -39,16 +39,20 @@ func (c *Compiler) handleIntegerCast(toReturnType *types.IntType, variable value
 		return c.block().NewZExt(variable, toReturnType)
 	}
 
+	if ctypes.IsUnsignedInteger(variableCandiceType) {
+		return c.block().NewZExt(variable, toReturnType)
+	}
+
 	return c.block().NewSExt(variable, toReturnType)
 }
 
 // performs a cast bitsize, if first parameter is a float the second param should be a float as well
 // if you call this function and toReturnType is not
 // a float or an integer the program will probably panic
-func (c *Compiler) handleNumericBitCast(toReturnType types.Type, variable value.Value) value.Value {
+func (c *Compiler) handleNumericBitCast(toReturnType types.Type, variable value.Value, variableCandiceType ctypes.Type) value.Value {
 	integerType, isInteger := toReturnType.(*types.IntType)
 	if isInteger {
-		return c.handleIntegerCast(integerType, variable)
+		return c.handleIntegerCast(integerType, variable, variableCandiceType)
 	}
 	return c.handleFloatCast(toReturnType.(*types.FloatType), variable)
 }
-- 
2.43.0


From e9f26a1c51f325a322de5740920d733554982d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:05 +0000
Subject: [PATCH 06/90] fix: indexing or offsetting with an unsigned or i1
 integer treated it as signed

---
 internals/compiler/compiler.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 4893664..b370491 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1149,7 +1149,7 @@ func (c *Compiler) compileIndexAccess(access *ast.IndexAccess) value.Value {
 	leftArray := c.compileExpression(access.Left)
 	// keep do not load into memory before compiling expression
 	doNotLoadLeftArray := c.doNotLoadIntoMemory
-	index := c.loadIfPointer(c.compileExpression(access.Access))
+	index := c.extendUnsignedOffset(c.loadIfPointer(c.compileExpression(access.Access)), access.Access.GetType())
 
 	// If it's an array do not load into memory, just calculate offset
 	if types.IsPointer(leftArray.Type()) && types.IsArray(leftArray.Type().(*types.PointerType).ElemType) {
@@ -1164,6 +1164,15 @@ func (c *Compiler) compileIndexAccess(access *ast.IndexAccess) value.Value {
 	return c.calculatePointerOffset(leftArray, index)
 }
 
+// extendUnsignedOffset widens unsigned offsets because LLVM interprets offsets as signed integers.
+func (c *Compiler) extendUnsignedOffset(offset value.Value, offsetType ctypes.Type) value.Value {
+	if ctypes.IsUnsignedInteger(offsetType) || ctypes.I1 == offsetType {
+		return c.handleIntegerCast(types.I64, offset, offsetType)
+	}
+
+	return offset
+}
+
 func (c *Compiler) calculatePointerOffset(pointer value.Value, offset value.Value) value.Value {
 	calculatedPointer := c.block().NewGetElementPtr(pointer.Type().(*types.PointerType).ElemType, pointer, offset)
 	calculatedPointer.InBounds = true
@@ -1495,7 +1504,7 @@ func (c *Compiler) compileAdd(expr *ast.BinaryOperation) value.Value {
 
 	// Memory access via '+'
 	if types.IsPointer(leftValue.Type()) {
-		newPointer := c.calculatePointerOffset(leftValue, rightValue)
+		newPointer := c.calculatePointerOffset(leftValue, c.extendUnsignedOffset(rightValue, expr.Right.GetType()))
 		// return this pointer on another stack register because it's going to get used
 		toReturnPointer := c.block().NewAlloca(newPointer.Type())
 		c.block().NewStore(newPointer, toReturnPointer)
@@ -1538,6 +1547,7 @@ func (c *Compiler) compileSubtract(expr *ast.BinaryOperation) value.Value {
 	leftValue := c.loadIfPointer(c.compileExpression(expr.Left))
 	rightValue := c.loadIfPointer(c.compileExpression(expr.Right))
 	if types.IsPointer(leftValue.Type()) {
+		rightValue = c.extendUnsignedOffset(rightValue, expr.Right.GetType())
 		rightValue = c.block().NewMul(rightValue, constant.NewInt(rightValue.Type().(*types.IntType), -1))
 		newPointer := c.calculatePointerOffset(leftValue, rightValue)
 		// return this pointer on another stack register because it's probably going to get used
-- 
2.43.0


From a1c95e73a50904d9caa492a86729ba6f03fe68c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:28 +0000
Subject: [PATCH 07/90] fix: subtracting a narrow negative offset from a
 pointer wrapped around

---
 internals/compiler/compiler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index b370491..4e3278d 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1547,7 +1547,8 @@ func (c *Compiler) compileSubtract(expr *ast.BinaryOperation) value.Value {
 	leftValue := c.loadIfPointer(c.compileExpression(expr.Left))
 	rightValue := c.loadIfPointer(c.compileExpression(expr.Right))
 	if types.IsPointer(leftValue.Type()) {
-		rightValue = c.extendUnsignedOffset(rightValue, expr.Right.GetType())
+		// widen before negating: the lowest value of a narrow type has no opposite in it
+		rightValue = c.handleIntegerCast(types.I64, rightValue, expr.Right.GetType())
 		rightValue = c.block().NewMul(rightValue, constant.NewInt(rightValue.Type().(*types.IntType), -1))
 		newPointer := c.calculatePointerOffset(leftValue, rightValue)
 		// return this pointer on another stack register because it's probably going to get used
-- 
2.43.0


From f9b8ebee2e957ddcf101b1cc998691a1614853b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 08/90] fix: code after nested && and || (and in for updates)
 was dropped or left unterminated

---
 internals/compiler/compiler.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 4e3278d..ae187e1 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -328,7 +328,8 @@ func (c *Compiler) Compile(tree ast.Node) {
 		c.doNotAllocate = false
 	}()
 
-	if c.currentFunction != nil && len(c.currentFunction.Blocks) > 0 && c.currentFunction.Blocks[len(c.currentFunction.Blocks)-1].Term != nil {
+	// If the current block is already terminated this is dead code
+	if c.currentFunction != nil && len(c.blocks) > 0 && c.block().Term != nil {
 		return
 	}
 
@@ -609,7 +610,8 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 		c.Compile(statement)
 	}
 
-	lastBlock := c.currentFunction.Blocks[len(c.currentFunction.Blocks)-1]
+	// The current block isn't necessarily the last one that was created
+	lastBlock := c.block()
 	// If return hasn't been declared, declare a void return
 	if lastBlock.Term == nil {
 		if funk.GetFunctionType().IsMainFunction() {
@@ -725,7 +727,7 @@ func (c *Compiler) compileFor(forLoop *ast.ForStatement) {
 	c.currentBreakLeaveBlock, c.currentContinueEscapeBlock = previousBreak, previousContinue
 
 	// compile update statement
-	c.compileBlock(&ast.Block{Statements: []ast.Statement{forLoop.Operation}}, update)
+	updateEnd := c.compileBlock(&ast.Block{Statements: []ast.Statement{forLoop.Operation}}, update)
 
 	// jump to the update statement
 	if possibleNewBlock.Term == nil {
@@ -733,7 +735,7 @@ func (c *Compiler) compileFor(forLoop *ast.ForStatement) {
 	}
 
 	// go to the condition again
-	update.NewBr(condition)
+	updateEnd.NewBr(condition)
 
 	// Compile condition block
 	c.pushBlock(condition)
-- 
2.43.0


From 8f6a46a6787b0a9bc594c5547ea1944966119941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 09/90] fix: a block with statements after its return leaked
 its scope into the rest of the file

---
 internals/semantic/semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 3b49395..1fdcf05 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -296,7 +296,7 @@ func (s *Semantic) analyzeBlock(block *ast.Block) {
 	s.enterFrame()
 	for _, stmt := range block.Statements {
 		if s.returns {
-			return
+			break
 		}
 		s.analyzeStatement(stmt)
 	}
-- 
2.43.0


From c5b45fe5df322881a79a38f853ead692bd7f5564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:14 +0000
Subject: [PATCH 10/90] fix: a switch without default counted as returning on
 every path

---
 internals/semantic/semantic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 1fdcf05..8669860 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1436,7 +1436,8 @@ func (s *Semantic) analyzeSwitchStatement(switchStatement *ast.SwitchStatement)
 		s.analyzeBlock(switchStatement.Default)
 		allCasesReturn = allCasesReturn && s.returns
 	} else {
-		s.returns = false
+		// no case might match
+		allCasesReturn = false
 	}
 
 	s.returns = allCasesReturn
-- 
2.43.0


From 59c645b1da320ce687f262e087e4141a3a79ae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:21 +0000
Subject: [PATCH 11/90] fix: break and continue were accepted in a lambda
 because of a loop around it

---
 internals/semantic/semantic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 8669860..c91d4ea 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -382,6 +382,9 @@ func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Fu
 func (s *Semantic) analyzeAnonymousFunction(anonymousFunction *ast.AnonymousFunction) ctypes.Type {
 	temporaryReturns := s.returns
 	s.returns = false
+	// the loop around the function isn't reachable from its body
+	tmpInsideBreakableBlock := s.insideBreakableBlock
+	s.insideBreakableBlock = false
 	tmpAnon := s.currentAnonymousFunctionBeingAnalyzed
 	tmpFun := s.currentFunctionBeingAnalyzed
 	s.currentFunctionBeingAnalyzed = anonymousFunction.FunctionType
@@ -390,6 +393,7 @@ func (s *Semantic) analyzeAnonymousFunction(anonymousFunction *ast.AnonymousFunc
 	s.currentFunctionBeingAnalyzed = tmpFun
 	s.currentAnonymousFunctionBeingAnalyzed = tmpAnon
 	s.returns = temporaryReturns
+	s.insideBreakableBlock = tmpInsideBreakableBlock
 	return anonymousFunction.FunctionType
 }
 
-- 
2.43.0


From c5abc63712fdb7bdf946e20081f0a7901233b15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:28 +0000
Subject: [PATCH 12/90] fix: comparing function types or value lists of
 different lengths panicked or succeeded

---
 internals/semantic/semantic.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index c91d4ea..55d83b9 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -667,7 +667,7 @@ func (s *Semantic) existsTypeInUnion(union *ctypes.Union, other ctypes.Type) boo
 func (s *Semantic) checkPossibleCommaTypeEquality(first, second ctypes.Type) bool {
 	if firstTypeList, isList := first.(*ctypes.TypeList); isList {
 		secondTypeList, ok := second.(*ctypes.TypeList)
-		if !ok {
+		if !ok || len(firstTypeList.Types) != len(secondTypeList.Types) {
 			return false
 		}
 
@@ -700,7 +700,8 @@ func (s *Semantic) areTypesEqual(first, second ctypes.Type) bool {
 
 	if firstFunc, ok := first.(*ctypes.Function); ok {
 		secondFunc, ok := second.(*ctypes.Function)
-		if !ok {
+		if !ok || len(firstFunc.Parameters) != len(secondFunc.Parameters) ||
+			firstFunc.InfiniteParameters != secondFunc.InfiniteParameters {
 			return false
 		}
 		for i, param := range firstFunc.Parameters {
@@ -755,7 +756,8 @@ func (s *Semantic) areTypesEqualIncludingUnions(first, second ctypes.Type) bool
 
 	if firstFunc, ok := first.(*ctypes.Function); ok {
 		secondFunc, ok := second.(*ctypes.Function)
-		if !ok {
+		if !ok || len(firstFunc.Parameters) != len(secondFunc.Parameters) ||
+			firstFunc.InfiniteParameters != secondFunc.InfiniteParameters {
 			return false
 		}
 		for i, param := range firstFunc.Parameters {
-- 
2.43.0


From cac8999e744ea87a1a22493e794b72bf67c64697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:36 +0000
Subject: [PATCH 13/90] fix: a variable initialised by a call or union with a
 literal inside had no memory of its own

---
 internals/compiler/compiler.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index ae187e1..0242508 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -783,6 +783,12 @@ func (c *Compiler) compileDeclaration(decl *ast.DeclarationStatement) {
 		return
 	}
 
+	// Only the memory of the literal itself can become the variable, a literal nested in the expression
+	// doesn't change that the result needs its own memory.
+	if !decl.Constant && !(isAggregateLiteral(decl.Expression) && valueCompiled.Type().Equal(types.NewPointer(t))) {
+		c.doNotAllocate = false
+	}
+
 	var val value.Value
 	if !c.doNotAllocate {
 		val = c.block().NewAlloca(t)
@@ -796,6 +802,15 @@ func (c *Compiler) compileDeclaration(decl *ast.DeclarationStatement) {
 	c.declare(decl.Name, val)
 }
 
+func isAggregateLiteral(expression ast.Expression) bool {
+	switch expression.(type) {
+	case *ast.StructLiteral, *ast.ArrayLiteral:
+		return true
+	}
+
+	return false
+}
+
 func (c *Compiler) bitcastIfUnion(t ctypes.Type, toBeBitcasted value.Value, unionType types.Type) value.Value {
 	possibleUnion := c.retrieveInnerAnonymousAndUnwrap(t)
 
-- 
2.43.0


From 8936b3ac2283402f69fca6a5ed7c6b55051e4957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:43 +0000
Subject: [PATCH 14/90] fix: initialising a union field of a struct literal
 emitted invalid code or read past the value

---
 internals/compiler/compiler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 0242508..abf7bc1 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1288,10 +1288,10 @@ func (c *Compiler) compileStructLiteral(strukt *ast.StructLiteral) value.Value {
 		ptr.InBounds = true
 
 		// Unwrap value pointer
-		compiledValue = c.loadIfPointer(c.bitcastIfUnion(field, compiledValue, ptr.Type()))
+		compiledValue = c.loadIfPointer(compiledValue)
 
 		// Store in the pointer the compiler value
-		c.block().NewStore(compiledValue, ptr)
+		c.block().NewStore(compiledValue, c.bitcastIfUnion(field, ptr, types.NewPointer(compiledValue.Type())))
 	}
 
 	// Do not allocate on declaration/assignments because we are already allocating above.
-- 
2.43.0


From db51f769f40edb583f5f573d16fd56a069aced7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 15/90] fix: a union was accepted where one of its members is
 needed, and unknown literal fields checked against field 0

---
 internals/semantic/semantic.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 55d83b9..f77cf76 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -742,10 +742,6 @@ func (s *Semantic) areTypesEqualIncludingUnions(first, second ctypes.Type) bool
 		return s.existsTypeInUnion(union, second)
 	}
 
-	if union, isUnion := second.(*ctypes.Union); isUnion {
-		return s.existsTypeInUnion(union, first)
-	}
-
 	if s.checkPossibleCommaTypeEquality(first, second) {
 		return true
 	}
@@ -920,6 +916,7 @@ func (s *Semantic) analyzeStructLiteral(structLiteral *ast.StructLiteral) ctypes
 		index, ok := paramMap[value.Name]
 		if !ok {
 			s.errorWithStatement("undefined attribute on struct literal "+value.Name, structLiteral.Token)
+			continue
 		}
 		expression := s.analyzeExpression(value.Expression)
 		if !s.areTypesEqualIncludingUnions(structType.Fields[index], expression) {
-- 
2.43.0


From 99e436ddd3db6c8711cb4dba4838983ec33c73d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:58 +0000
Subject: [PATCH 16/90] fix: unary plus and float conditions passed the checker
 but stopped the compiler

---
 internals/compiler/compiler.go             | 4 ++++
 internals/compiler/compiler_conversions.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index abf7bc1..e7e42ad 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1009,6 +1009,10 @@ func (c *Compiler) compilePrefixExpression(prefix *ast.PrefixOperation) value.Va
 		return prefixValue
 	}
 
+	if prefix.Operation == ops.Add {
+		return c.loadIfPointer(prefixValue)
+	}
+
 	if prefix.Operation == ops.Bang {
 		return c.block().NewICmp(enum.IPredEQ, c.toBool(c.loadIfPointer(prefixValue)), zero)
 	}
diff --git a/internals/compiler/compiler_conversions.go b/internals/compiler/compiler_conversions.go
index b203fca..bda0876 100644
--- a/internals/compiler/compiler_conversions.go
+++ b/internals/compiler/compiler_conversions.go
@@ -2,6 +2,7 @@ package compiler
 
 import (
 	"github.com/gabivlj/candice/internals/ctypes"
+	"github.com/llir/llvm/ir/constant"
 	"github.com/llir/llvm/ir/enum"
 	"github.com/llir/llvm/ir/types"
 	"github.com/llir/llvm/ir/value"
@@ -15,6 +16,9 @@ func (c *Compiler) toBool(value value.Value) value.Value {
 		}
 		return c.block().NewICmp(enum.IPredNE, value, zero)
 	}
+	if float, ok := value.Type().(*types.FloatType); ok {
+		return c.block().NewFCmp(enum.FPredUNE, value, constant.NewFloat(float, 0))
+	}
 	if _, ok := value.Type().(*types.PointerType); ok {
 		return c.block().NewICmp(enum.IPredNE, c.block().NewPtrToInt(value, types.I64), zero)
 	}
-- 
2.43.0


From 9ba3abc2136d34c84ea9d0cd33e5f7e10218185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:27 +0000
Subject: [PATCH 17/90] fix: && and || on integers were typed as their operand
 but produced a boolean; functions without result had no type until analyzed

---
 internals/semantic/semantic.go       | 9 +++++++++
 internals/semantic/semantic_steps.go | 8 +++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index f77cf76..e4a70e5 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1370,6 +1370,15 @@ func (s *Semantic) analyzeArithmetic(binaryOperation *ast.BinaryOperation) ctype
 		return s.analyzeShiftOperation(binaryOperation, left, right)
 	}
 
+	if binaryOperation.Operation == ops.AND || binaryOperation.Operation == ops.OR {
+		// The result is a boolean whatever the operands are, so a chain like a && b && c
+		// of non boolean operands needs to mix both.
+		if ctypes.IsNumeric(left) && ctypes.IsNumeric(right) &&
+			(left == ctypes.I1 || right == ctypes.I1 || s.areTypesEqual(left, right)) {
+			return ctypes.I1
+		}
+	}
+
 	if !s.areTypesEqual(left, right) {
 		s.typeMismatchBlameArithmeticExpressionError(binaryOperation.String(), binaryOperation, binaryOperation.Token, true)
 	}
diff --git a/internals/semantic/semantic_steps.go b/internals/semantic/semantic_steps.go
index 9f1c6ff..3decf19 100644
--- a/internals/semantic/semantic_steps.go
+++ b/internals/semantic/semantic_steps.go
@@ -1,6 +1,9 @@
 package semantic
 
-import "github.com/gabivlj/candice/internals/ast"
+import (
+	"github.com/gabivlj/candice/internals/ast"
+	"github.com/gabivlj/candice/internals/ctypes"
+)
 
 func (s *Semantic) predefineTypes(statements []ast.Statement) {
 	for _, statement := range statements {
@@ -30,6 +33,9 @@ func (s *Semantic) predefineFunctions(statements []ast.Statement) {
 		switch t := statement.(type) {
 		case *ast.FunctionDeclarationStatement:
 			{
+				if t.FunctionType.Return == nil {
+					t.FunctionType.Return = ctypes.VoidType
+				}
 				s.enterFrame()
 				s.replaceAnonymousFunctionParameterTypes(t.FunctionType)
 				s.leaveFrame()
-- 
2.43.0


From e2ce68cac099d72897c91427d747dbfba6f761e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:11 +0000
Subject: [PATCH 18/90] fix: the result of ! kept the type of its operand

---
 internals/semantic/semantic.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index e4a70e5..4759821 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1044,6 +1044,7 @@ func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation)
 			s.typeMismatchError(prefixOperation.String(), prefixOperation.Right, prefixOperation.Token, ctypes.LiteralToType("i32"), t)
 		}
 
+		prefixOperation.Type = ctypes.I1
 		return ctypes.I1
 	}
 
-- 
2.43.0


From 4938ee0579aea5f8a2150f7e74b436a6db4dc92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:17 +0000
Subject: [PATCH 19/90] fix: calling a function before its definition left an
 alias in the type of the call

---
 internals/semantic/semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 4759821..2e7ff89 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -341,7 +341,7 @@ func (s *Semantic) replaceAnonymousFunctionParameterTypes(fun *ctypes.Function)
 	}
 
 	if fun.Return != nil {
-		s.replaceAnonymous(fun.Return)
+		fun.Return = s.UnwrapAnonymous(s.replaceAnonymous(fun.Return))
 	}
 }
 
-- 
2.43.0


From 76341673abf7d082a3ec2e3b93b12f77a4f1e493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:54 +0000
Subject: [PATCH 20/90] fix: a function type kept aliases in its parameters and
 result

---
 internals/semantic/semantic.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 2e7ff89..beccbd1 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -643,6 +643,16 @@ func (s *Semantic) swapTypes(t ctypes.Type, toSwap ctypes.Type) ctypes.Type {
 		return t
 	}
 
+	if function, ok := t.(*ctypes.Function); ok && toSwap == ctypes.TODO() {
+		for i, parameter := range function.Parameters {
+			function.Parameters[i] = s.swapTypes(parameter, toSwap)
+		}
+		if function.Return != nil {
+			function.Return = s.swapTypes(function.Return, toSwap)
+		}
+		return function
+	}
+
 	if toSwap == ctypes.TODO() {
 		trueType := s.UnwrapAnonymous(t)
 		if _, ok := trueType.(*ctypes.Anonymous); (ok && trueType == t) || trueType == nil {
-- 
2.43.0


From 16b16cdb3070cdf6bf6ffbd191e91520ec9bae91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 21/90] fix: return inside a block expression did not leave it,
 and was confused with returns of nested blocks and lambdas

---
 internals/compiler/compiler.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index e7e42ad..b4d15fc 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -53,6 +53,8 @@ type Compiler struct {
 	currentBreakLeaveBlock              *ir.Block
 	currentContinueEscapeBlock          *ir.Block
 	currentValueToReturnBlockExpression value.Value
+	// Block where the execution continues after the current block expression returns
+	currentLeaveBlockExpression *ir.Block
 	context                             *semantic.Semantic
 	modules                             map[string]*Compiler
 	compiledModules                     map[string]*Compiler
@@ -534,8 +536,9 @@ func (c *Compiler) compileReturn(ret *ast.ReturnStatement) {
 	if c.currentValueToReturnBlockExpression != nil {
 		c.block().NewStore(
 			toReturnLoaded,
-			c.bitcastIfUnion(ret.Type, c.currentValueToReturnBlockExpression, toReturn.Type()),
+			c.bitcastIfUnion(ret.Type, c.currentValueToReturnBlockExpression, types.NewPointer(toReturnLoaded.Type())),
 		)
+		c.block().NewBr(c.currentLeaveBlockExpression)
 		return
 	}
 
@@ -605,6 +608,10 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 	prevFunction := c.currentFunction
 	c.currentFunction = llvmFunction
 
+	// A return in the body of this function isn't the return of the block expression where it is declared
+	previousValue, previousLeave := c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression
+	c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression = nil, nil
+
 	// Compile block
 	for _, statement := range funk.GetBlock().Statements {
 		c.Compile(statement)
@@ -630,6 +637,7 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 	// Pop block, stack and restore current function
 	c.popBlock()
 	c.currentFunction = prevFunction
+	c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression = previousValue, previousLeave
 }
 
 func (c *Compiler) compileFunctionRedeclaration(otherFunctionBlocks []*ir.Block, funk ast.Function) {
@@ -1252,11 +1260,20 @@ func (c *Compiler) loadIfPointerWithAlignment(val value.Value, alignment int) va
 func (c *Compiler) compileBlockExpression(block *ast.ExpressionBlock) value.Value {
 	t := c.ToLLVMType(block.Type)
 	alloca := c.block().NewAlloca(t)
-	c.currentValueToReturnBlockExpression = alloca
-	newBlock := c.currentFunction.NewBlock("block-expression-" + random.RandomString(5))
+	previousValue, previousLeave := c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression
+	leave := ir.NewBlock("block-expression-leave-" + random.RandomString(10))
+	c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression = alloca, leave
+	newBlock := c.currentFunction.NewBlock("block-expression-" + random.RandomString(10))
 	c.block().NewBr(newBlock)
-	c.blocks[len(c.blocks)-1] = c.compileBlock(block.Block, newBlock)
-	c.currentValueToReturnBlockExpression = nil
+	lastBlock := c.compileBlock(block.Block, newBlock)
+	if lastBlock.Term == nil {
+		// every path of the block expression returns, so nothing gets here
+		lastBlock.NewUnreachable()
+	}
+	c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression = previousValue, previousLeave
+	leave.Parent = c.currentFunction
+	c.currentFunction.Blocks = append(c.currentFunction.Blocks, leave)
+	c.blocks[len(c.blocks)-1] = leave
 	return alloca
 }
 
-- 
2.43.0


From 63315f2e87e023a8d3eef39962c1c7c473219b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 22/90] fix: constants folded their left operand twice, and
 failed or lost signedness in other operations

---
 internals/compiler/compiler_constant.go | 314 +++++++++++++++++-------
 1 file changed, 229 insertions(+), 85 deletions(-)

diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index 7f566ff..2e81143 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -1,71 +1,86 @@
 package compiler
 
 import (
+	"math"
+	"math/big"
+
 	"github.com/gabivlj/candice/internals/ast"
 	"github.com/gabivlj/candice/internals/ctypes"
 
 	"github.com/gabivlj/candice/internals/ops"
 	"github.com/llir/llvm/ir/constant"
+	"github.com/llir/llvm/ir/enum"
 	"github.com/llir/llvm/ir/types"
 )
 
-func (c *Compiler) something() {
-	// constant.
-}
+// Constants are folded here instead of being emitted as LLVM constant expressions, because most of
+// those don't exist anymore in the versions of LLVM that candice targets.
 
-func (c *Compiler) handleConstantCast(val constant.Constant, originalType ctypes.Type, to types.Type, expr ast.Expression) constant.Constant {
-	if types.IsInt(to) {
-		to := to.(*types.IntType)
-		if integerType, ok := val.Type().(*types.IntType); ok {
-			if integerType.BitSize > to.BitSize {
-				return constant.NewTrunc(val, to)
-			}
+// wrapInteger returns the constant integer of type t that has the lower bits of x
+func wrapInteger(t *types.IntType, x *big.Int, unsigned bool) *constant.Int {
+	modulo := new(big.Int).Lsh(big.NewInt(1), uint(t.BitSize))
+	// Mod is never negative
+	wrapped := new(big.Int).Mod(x, modulo)
+	if !unsigned && t.BitSize > 1 && wrapped.Bit(int(t.BitSize)-1) == 1 {
+		wrapped.Sub(wrapped, modulo)
+	}
 
-			if integerType.BitSize < to.BitSize {
-				if val.Type() == types.I1 {
-					// SExt extends the bit sign of the val, i1 can be considered as a sign, so
-					// it will be extended accross all the bits, for example if you cast
-					// i1 '1' to i8, you will get 111...1110, which is -1.
-					return constant.NewZExt(val, to)
-				}
+	return &constant.Int{Typ: t, X: wrapped}
+}
 
-				return constant.NewSExt(val, to)
-			}
+// integerValue returns the mathematical value of the constant
+func integerValue(i *constant.Int, unsigned bool) *big.Int {
+	return wrapInteger(i.Typ, i.X, unsigned).X
+}
 
-			return val
-		}
+func floatValue(f *constant.Float) float64 {
+	value, _ := f.X.Float64()
+	if f.NaN {
+		return math.NaN()
+	}
 
-		if _, ok := val.Type().(*types.FloatType); ok {
-			if ctypes.IsUnsignedInteger(originalType) {
-				return constant.NewFPToUI(val, to)
-			}
+	if f.Typ.Kind == types.FloatKindFloat {
+		return float64(float32(value))
+	}
 
-			return constant.NewFPToSI(val, to)
-		}
+	return value
+}
 
-		c.exitErrorExpression("can't handle this cast", expr)
+func newFloat(t *types.FloatType, value float64) *constant.Float {
+	if t.Kind == types.FloatKindFloat {
+		value = float64(float32(value))
 	}
 
-	if types.IsFloat(to) {
-		to := to.(*types.FloatType)
-		if _, ok := val.Type().(*types.IntType); ok {
-			if !ctypes.IsUnsignedInteger(originalType) {
-				return constant.NewSIToFP(val, to)
-			}
-
-			return constant.NewUIToFP(val, to)
-		}
+	return constant.NewFloat(t, value)
+}
 
-		if valFloat, ok := val.Type().(*types.FloatType); ok {
-			if valFloat.Kind == types.FloatKindDouble && to.Kind == types.FloatKindFloat {
-				return constant.NewFPTrunc(val, to)
+func (c *Compiler) handleConstantCast(val constant.Constant, originalType ctypes.Type, targetType ctypes.Type, expr ast.Expression) constant.Constant {
+	fromUnsigned := ctypes.IsUnsignedInteger(originalType) || originalType == ctypes.I1
+	toUnsigned := ctypes.IsUnsignedInteger(targetType)
+	switch to := c.ToLLVMType(targetType).(type) {
+	case *types.IntType:
+		switch val := val.(type) {
+		case *constant.Int:
+			return wrapInteger(to, integerValue(val, fromUnsigned), toUnsigned)
+		case *constant.Float:
+			value := floatValue(val)
+			if !math.IsNaN(value) && !math.IsInf(value, 0) {
+				integer, _ := big.NewFloat(value).Int(nil)
+				return wrapInteger(to, integer, toUnsigned)
 			}
-
-			if valFloat.Kind == to.Kind {
-				return val
+		}
+	case *types.FloatType:
+		switch val := val.(type) {
+		case *constant.Int:
+			integer := new(big.Float).SetInt(integerValue(val, fromUnsigned))
+			if to.Kind == types.FloatKindFloat {
+				value, _ := integer.Float32()
+				return newFloat(to, float64(value))
 			}
-
-			return constant.NewFPExt(val, to)
+			value, _ := integer.Float64()
+			return newFloat(to, value)
+		case *constant.Float:
+			return newFloat(to, floatValue(val))
 		}
 	}
 
@@ -73,13 +88,61 @@ func (c *Compiler) handleConstantCast(val constant.Constant, originalType ctypes
 	return nil
 }
 
+// compileConstantIdentifier retrieves the value of a constant
+func (c *Compiler) compileConstantIdentifier(expr *ast.Identifier) constant.Constant {
+	if local := c.retrieveLocalVariable(expr.Name); local != nil {
+		if value, isConstant := local.(constant.Constant); isConstant && !types.IsPointer(value.Type()) {
+			return value
+		}
+	} else if global, ok := c.globalVariables[expr.Name]; ok && (global.Constant || ctypes.IsFunction(global.Type)) {
+		if value, isConstant := global.Value.(constant.Constant); isConstant {
+			return value
+		}
+	}
+
+	c.exitErrorExpression("this is not a constant", expr)
+	panic(nil)
+}
+
+func (c *Compiler) compileConstantPrefix(expr *ast.PrefixOperation) constant.Constant {
+	value := c.compileConstantExpression(expr.Right)
+	switch value := value.(type) {
+	case *constant.Int:
+		switch expr.Operation {
+		case ops.Add:
+			return value
+		case ops.Subtract:
+			return wrapInteger(value.Typ, new(big.Int).Neg(value.X), ctypes.IsUnsignedInteger(expr.GetType()))
+		case ops.Bang:
+			return constant.NewBool(value.X.Sign() == 0)
+		}
+	case *constant.Float:
+		switch expr.Operation {
+		case ops.Add:
+			return value
+		case ops.Subtract:
+			return newFloat(value.Typ, -floatValue(value))
+		case ops.Bang:
+			return constant.NewBool(floatValue(value) == 0)
+		}
+	}
+
+	c.exitErrorExpression("unexpected non constant operation", expr)
+	panic(nil)
+}
+
 func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Constant {
 	switch expr := expr.(type) {
 	case *ast.Identifier:
-		return c.compileIdentifier(expr).(constant.Constant)
+		return c.compileConstantIdentifier(expr)
+	case *ast.PrefixOperation:
+		return c.compileConstantPrefix(expr)
 	case *ast.BinaryOperation:
+		if expr.Operation == ops.Dot {
+			return c.compileConstantModuleAccess(expr)
+		}
 		left := c.compileConstantExpression(expr.Left)
-		right := c.compileConstantExpression(expr.Left)
+		right := c.compileConstantExpression(expr.Right)
 		return c.compileOperation(expr.Operation, expr, left, right)
 	case *ast.Integer:
 		return c.compileExpression(expr).(constant.Constant)
@@ -92,7 +155,7 @@ func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Const
 			return c.handleConstantCast(
 				c.compileConstantExpression(expr.Parameters[0]),
 				expr.Parameters[0].GetType(),
-				c.ToLLVMType(expr.GetType()),
+				expr.GetType(),
 				expr,
 			)
 		}
@@ -105,59 +168,140 @@ func (c *Compiler) compileConstantExpression(expr ast.Expression) constant.Const
 	panic(nil)
 }
 
-func (c *Compiler) compileOperation(op ops.Operation, expr *ast.BinaryOperation, first, second constant.Constant) constant.Constant {
-	switch op {
-	case ops.Add:
-		if types.IsFloat(first.Type()) {
-			return constant.NewFAdd(first, second)
+// compileConstantModuleAccess retrieves the value of a constant that belongs to another module
+func (c *Compiler) compileConstantModuleAccess(expr *ast.BinaryOperation) constant.Constant {
+	identifier, isIdentifier := expr.Left.(*ast.Identifier)
+	if isIdentifier {
+		if module, ok := c.modules[identifier.Name]; ok {
+			return module.compileConstantExpression(expr.Right)
 		}
+	}
 
-		return constant.NewAdd(first, second)
+	c.exitErrorExpression("unexpected non constant operation", expr)
+	panic(nil)
+}
 
-	case ops.Subtract:
-		if types.IsFloat(first.Type()) {
-			return constant.NewFSub(first, second)
+func (c *Compiler) compileOperation(op ops.Operation, expr *ast.BinaryOperation, first, second constant.Constant) constant.Constant {
+	if left, ok := first.(*constant.Int); ok {
+		if right, ok := second.(*constant.Int); ok {
+			return c.compileIntegerOperation(op, expr, left, right)
 		}
+	}
 
-		return constant.NewSub(first, second)
+	if left, ok := first.(*constant.Float); ok {
+		if right, ok := second.(*constant.Float); ok {
+			return c.compileFloatOperation(op, expr, left, right)
+		}
+	}
 
-	case ops.Multiply:
-		if types.IsFloat(first.Type()) {
-			return constant.NewFMul(first, second)
+	c.exitErrorExpression("can't operate these constants", expr)
+	return nil
+}
+
+func (c *Compiler) compileIntegerOperation(op ops.Operation, expr *ast.BinaryOperation, first, second *constant.Int) constant.Constant {
+	leftType := expr.Left.GetType()
+	unsigned := ctypes.IsUnsignedInteger(leftType)
+	left := integerValue(first, unsigned)
+	right := integerValue(second, ctypes.IsUnsignedInteger(expr.Right.GetType()))
+	result := new(big.Int)
+
+	if op.IsComparison() {
+		switch op {
+		case ops.AND:
+			return constant.NewBool(left.Sign() != 0 && right.Sign() != 0)
+		case ops.OR:
+			return constant.NewBool(left.Sign() != 0 || right.Sign() != 0)
 		}
 
-		return constant.NewMul(first, second)
+		comparison := left.Cmp(right)
+		switch c.getIPredComparison(op, leftType) {
+		case enum.IPredEQ:
+			return constant.NewBool(comparison == 0)
+		case enum.IPredNE:
+			return constant.NewBool(comparison != 0)
+		case enum.IPredSGE, enum.IPredUGE:
+			return constant.NewBool(comparison >= 0)
+		case enum.IPredSGT, enum.IPredUGT:
+			return constant.NewBool(comparison > 0)
+		case enum.IPredSLE, enum.IPredULE:
+			return constant.NewBool(comparison <= 0)
+		case enum.IPredSLT, enum.IPredULT:
+			return constant.NewBool(comparison < 0)
+		}
+	}
 
+	switch op {
+	case ops.Add:
+		result.Add(left, right)
+	case ops.Subtract:
+		result.Sub(left, right)
+	case ops.Multiply:
+		result.Mul(left, right)
 	case ops.BinaryAND:
-		return constant.NewAnd(first, second)
+		result.And(left, right)
 	case ops.BinaryXOR:
-		return constant.NewXor(first, second)
+		result.Xor(left, right)
 	case ops.BinaryOR:
-		return constant.NewOr(first, second)
-	case ops.LeftShift:
-		return constant.NewShl(first, second)
-	case ops.RightShift:
-		return constant.NewLShr(first, second)
-	case ops.Divide:
-		if types.IsInt(first.Type()) {
-			if _, isUnsigned := expr.Type.(*ctypes.UInteger); isUnsigned {
-				return constant.NewUDiv(first, second)
-			}
-			return constant.NewSDiv(first, second)
+		result.Or(left, right)
+	case ops.LeftShift, ops.RightShift:
+		if right.Sign() < 0 || right.Cmp(big.NewInt(int64(first.Typ.BitSize))) >= 0 {
+			c.exitErrorExpression("shifting a constant by more bits than it has", expr)
 		}
-		if types.IsFloat(first.Type()) {
-			return constant.NewFDiv(first, second)
+
+		if op == ops.LeftShift {
+			result.Lsh(left, uint(right.Int64()))
+		} else {
+			// right shifts don't keep the sign
+			result.Rsh(integerValue(first, true), uint(right.Int64()))
 		}
-	case ops.Modulo:
-		if types.IsInt(first.Type()) {
-			if _, isUnsigned := expr.Type.(*ctypes.UInteger); isUnsigned {
-				return constant.NewURem(first, second)
-			}
-			return constant.NewSRem(first, second)
+	case ops.Divide, ops.Modulo:
+		if right.Sign() == 0 {
+			c.exitErrorExpression("division of a constant by zero", expr)
 		}
-		if types.IsFloat(first.Type()) {
-			return constant.NewFRem(first, second)
+
+		if op == ops.Divide {
+			result.Quo(left, right)
+		} else {
+			result.Rem(left, right)
+		}
+	default:
+		c.exitInternalError("can't handle operation " + op.String() + " on " + first.String() + " and " + second.String())
+	}
+
+	return wrapInteger(first.Typ, result, unsigned)
+}
+
+func (c *Compiler) compileFloatOperation(op ops.Operation, expr *ast.BinaryOperation, first, second *constant.Float) constant.Constant {
+	left, right := floatValue(first), floatValue(second)
+	switch op {
+	case ops.Add:
+		return newFloat(first.Typ, left+right)
+	case ops.Subtract:
+		return newFloat(first.Typ, left-right)
+	case ops.Multiply:
+		return newFloat(first.Typ, left*right)
+	case ops.Divide:
+		if right == 0 {
+			c.exitErrorExpression("division of a constant by zero", expr)
+		}
+		return newFloat(first.Typ, left/right)
+	case ops.Modulo:
+		if right == 0 {
+			c.exitErrorExpression("division of a constant by zero", expr)
 		}
+		return newFloat(first.Typ, math.Mod(left, right))
+	case ops.Equals:
+		return constant.NewBool(left == right)
+	case ops.NotEquals:
+		return constant.NewBool(left != right)
+	case ops.GreaterThan:
+		return constant.NewBool(left > right)
+	case ops.GreaterThanEqual:
+		return constant.NewBool(left >= right)
+	case ops.LessThan:
+		return constant.NewBool(left < right)
+	case ops.LessThanEqual:
+		return constant.NewBool(left <= right)
 	}
 
 	c.exitInternalError("can't handle operation " + op.String() + " on " + first.String() + " and " + second.String())
-- 
2.43.0


From 690182313064fe32fe05458e6f01f347879d0102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 23/90] fix: global strings were only initialised where they
 are first used in the source

---
 internals/compiler/compiler.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index b4d15fc..5796c64 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1050,21 +1050,23 @@ func (c *Compiler) compileIdentifier(id *ast.Identifier) value.Value {
 	return c.retrieveVariable(id.Name)
 }
 
+// defineGlobalArray defines a global that is a pointer to the first element of the array
+func (c *Compiler) defineGlobalArray(name string, array constant.Constant) value.Value {
+	memory := c.m.NewGlobalDef(name+"_alloca", array)
+	return c.m.NewGlobalDef(name, constant.NewGetElementPtr(array.Type(), memory, constant.NewInt(types.I32, 0), constant.NewInt(types.I32, 0)))
+}
+
 func (c *Compiler) retrieveVariable(name string) value.Value {
 	identifier := c.retrieveLocalVariable(name)
 	if identifier != nil {
 		if !types.IsPointer(identifier.Type()) {
 			c.doNotLoadIntoMemory = true
 			if types.IsArray(identifier.Type()) {
-				global := identifier.(constant.Constant)
-				array := c.block().NewAlloca(global.Type())
-				c.block().NewStore(global, array)
-				pointer := c.block().NewBitCast(array, types.NewPointer(global.Type().(*types.ArrayType).ElemType))
-				lastAlloca := c.block().NewAlloca(pointer.Type())
-				c.variables.Add(name, lastAlloca)
-				c.block().NewStore(pointer, lastAlloca)
+				// Statically initialized, we can't know if every use comes after this one
+				globalDefinition := c.defineGlobalArray(name+".local."+random.RandomString(10), identifier.(constant.Constant))
+				c.variables.Add(name, globalDefinition)
 				c.doNotLoadIntoMemory = false
-				return lastAlloca
+				return globalDefinition
 			}
 		}
 		return identifier
@@ -1081,11 +1083,8 @@ func (c *Compiler) retrieveVariable(name string) value.Value {
 			// If it is an array we must allocate it as a global and then cast it as a pointer
 			// and allocate it again so we can use it normally, we cache that result into globalVariables + .global
 			if types.IsArray(global.Type()) {
-				array := c.m.NewGlobalDef(name+".global_alloca", global)
-				pointer := c.block().NewBitCast(array, types.NewPointer(global.Type().(*types.ArrayType).ElemType))
-				globalDefinition := c.m.NewGlobalDef(name+".global", constant.NewNull(pointer.Type().(*types.PointerType)))
+				globalDefinition := c.defineGlobalArray(name+".global", global)
 				c.globalVariables[name+".global"] = &Value{Value: globalDefinition, Type: fn.Type}
-				c.block().NewStore(pointer, globalDefinition)
 				return globalDefinition
 			}
 
-- 
2.43.0


From c506ec6251bc1d86c2df0b8fa429eb182dc2980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 24/90] fix: memory of locals and temporaries in a loop grew
 the stack on each iteration

---
 internals/compiler/compiler.go       | 35 ++++++++++++++--------------
 internals/compiler/compiler_utils.go |  9 +++++++
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 5796c64..fff5774 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -193,7 +193,7 @@ func (c *Compiler) initializeBuiltinLib() {
 		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, elementSize))
 		returnedValue := c.block().NewCall(c.realloc(), c.block().NewBitCast(ptr, types.I8Ptr), totalSize)
 		castedValue := c.block().NewBitCast(returnedValue, toReturnType)
-		alloca := c.block().NewAlloca(castedValue.Type())
+		alloca := c.newAlloca(castedValue.Type())
 		c.block().NewStore(castedValue, alloca)
 		return alloca
 	}
@@ -237,7 +237,7 @@ func (c *Compiler) initializeBuiltinLib() {
 		totalSize := c.block().NewMul(length, constant.NewInt(types.I64, typeParameter.SizeOf()))
 		returnedValue := c.block().NewCall(c.malloc(), totalSize)
 		castedValue := c.block().NewBitCast(returnedValue, toReturnType)
-		alloca := c.block().NewAlloca(castedValue.Type())
+		alloca := c.newAlloca(castedValue.Type())
 		c.block().NewStore(castedValue, alloca)
 		return alloca
 	}
@@ -595,7 +595,7 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 
 	// Declare parameters IR
 	for _, param := range llvmFunction.Params {
-		allocatedParameter := c.block().NewAlloca(param.Type())
+		allocatedParameter := c.newAlloca(param.Type())
 		c.block().NewStore(param, allocatedParameter)
 		c.declare(param.Name(), allocatedParameter)
 	}
@@ -799,7 +799,7 @@ func (c *Compiler) compileDeclaration(decl *ast.DeclarationStatement) {
 
 	var val value.Value
 	if !c.doNotAllocate {
-		val = c.block().NewAlloca(t)
+		val = c.newAlloca(t)
 		valueCompiled = c.loadIfPointer(valueCompiled)
 		c.block().NewStore(valueCompiled, c.bitcastIfUnion(decl.Type, val, types.NewPointer(valueCompiled.Type())))
 	} else {
@@ -950,7 +950,7 @@ func (c *Compiler) compileStringLiteral(stringLiteral *ast.StringLiteral) value.
 
 func (c *Compiler) compileArrayLiteral(arrayLiteral *ast.ArrayLiteral) value.Value {
 	arrayType := c.ToLLVMType(arrayLiteral.Type).(*types.ArrayType)
-	allocaInstance := c.block().NewAlloca(arrayType)
+	allocaInstance := c.newAlloca(arrayType)
 	for index, value := range arrayLiteral.Values {
 		loadedValue := c.loadIfPointer(c.compileExpression(value))
 		integerIndex := constant.NewInt(types.I32, int64(index))
@@ -1000,14 +1000,14 @@ func (c *Compiler) compilePrefixExpression(prefix *ast.PrefixOperation) value.Va
 		// * Or is just a literal, like: variable := &3 (i32 instead of *i32)
 		//
 		if !types.IsPointer(prefixValue.Type()) || c.doNotLoadIntoMemory {
-			prefixValueTmp := c.block().NewAlloca(prefixValue.Type())
+			prefixValueTmp := c.newAlloca(prefixValue.Type())
 			c.block().NewStore(prefixValue, prefixValueTmp)
 			prefixValue = prefixValueTmp
 		}
 
 		c.doNotLoadIntoMemory = false
 		c.doNotAllocate = false
-		allocatedValue := c.block().NewAlloca(prefixValue.Type())
+		allocatedValue := c.newAlloca(prefixValue.Type())
 		c.block().NewStore(prefixValue, allocatedValue)
 		return allocatedValue
 	}
@@ -1140,7 +1140,7 @@ func (c *Compiler) allocateIfNotPointer(v value.Value) value.Value {
 		return v
 	}
 
-	alloca := c.block().NewAlloca(t)
+	alloca := c.newAlloca(t)
 	c.block().NewStore(v, alloca)
 	return alloca
 }
@@ -1258,7 +1258,7 @@ func (c *Compiler) loadIfPointerWithAlignment(val value.Value, alignment int) va
 
 func (c *Compiler) compileBlockExpression(block *ast.ExpressionBlock) value.Value {
 	t := c.ToLLVMType(block.Type)
-	alloca := c.block().NewAlloca(t)
+	alloca := c.newAlloca(t)
 	previousValue, previousLeave := c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression
 	leave := ir.NewBlock("block-expression-leave-" + random.RandomString(10))
 	c.currentValueToReturnBlockExpression, c.currentLeaveBlockExpression = alloca, leave
@@ -1290,7 +1290,7 @@ func (c *Compiler) compileStructLiteral(strukt *ast.StructLiteral) value.Value {
 	}
 
 	// Allocate in stack memory
-	struktValue := c.block().NewAlloca(possibleStruct.llvmType)
+	struktValue := c.newAlloca(possibleStruct.llvmType)
 
 	for _, decl := range strukt.Values {
 		// Get field position
@@ -1397,7 +1397,7 @@ func (c *Compiler) compileBinaryExpression(expr *ast.BinaryOperation) value.Valu
 
 func (c *Compiler) compileOr(and *ast.BinaryOperation) value.Value {
 	returnValue := constant.NewBool(false)
-	allocatedValue := c.block().NewAlloca(types.I1)
+	allocatedValue := c.newAlloca(types.I1)
 	c.block().NewStore(returnValue, allocatedValue)
 	orBlock := c.currentFunction.NewBlock("or." + random.RandomString(10))
 	truthBlock := c.currentFunction.NewBlock("truth_or." + random.RandomString(10))
@@ -1420,7 +1420,7 @@ func (c *Compiler) compileOr(and *ast.BinaryOperation) value.Value {
 
 func (c *Compiler) compileAnd(and *ast.BinaryOperation) value.Value {
 	returnValue := constant.NewBool(false)
-	allocatedValue := c.block().NewAlloca(types.I1)
+	allocatedValue := c.newAlloca(types.I1)
 	c.block().NewStore(returnValue, allocatedValue)
 	andBlock := c.currentFunction.NewBlock("and." + random.RandomString(10))
 	truthBlock := c.currentFunction.NewBlock("truth_and." + random.RandomString(10))
@@ -1476,7 +1476,7 @@ func (c *Compiler) compileStructAccess(expr *ast.BinaryOperation) value.Value {
 	leftStruct := leftStructPossibleNonPtr
 
 	if !types.IsPointer(leftStructPossibleNonPtr.Type()) {
-		leftStruct = c.block().NewAlloca(leftStructPossibleNonPtr.Type())
+		leftStruct = c.newAlloca(leftStructPossibleNonPtr.Type())
 		c.block().NewStore(leftStructPossibleNonPtr, leftStruct)
 	}
 
@@ -1543,7 +1543,7 @@ func (c *Compiler) compileAdd(expr *ast.BinaryOperation) value.Value {
 	if types.IsPointer(leftValue.Type()) {
 		newPointer := c.calculatePointerOffset(leftValue, c.extendUnsignedOffset(rightValue, expr.Right.GetType()))
 		// return this pointer on another stack register because it's going to get used
-		toReturnPointer := c.block().NewAlloca(newPointer.Type())
+		toReturnPointer := c.newAlloca(newPointer.Type())
 		c.block().NewStore(newPointer, toReturnPointer)
 		return toReturnPointer
 	}
@@ -1589,7 +1589,7 @@ func (c *Compiler) compileSubtract(expr *ast.BinaryOperation) value.Value {
 		rightValue = c.block().NewMul(rightValue, constant.NewInt(rightValue.Type().(*types.IntType), -1))
 		newPointer := c.calculatePointerOffset(leftValue, rightValue)
 		// return this pointer on another stack register because it's probably going to get used
-		toReturnPointer := c.block().NewAlloca(newPointer.Type())
+		toReturnPointer := c.newAlloca(newPointer.Type())
 		c.block().NewStore(newPointer, toReturnPointer)
 		return toReturnPointer
 	}
@@ -1754,6 +1754,7 @@ func (c *Compiler) compileSwitchStatement(switchStatement *ast.SwitchStatement)
 	}
 
 	c.blocks[len(c.blocks)-1] = leaveBlock
+	leaveBlock.Parent = c.currentFunction
 	c.currentFunction.Blocks = append(c.currentFunction.Blocks, leaveBlock)
 }
 
@@ -1783,7 +1784,7 @@ func (c *Compiler) compileCommaExpression(commaExpression *ast.CommaExpressions)
 		ptr = types.NewPointer(c.ToLLVMType(commaExpression.Type))
 	}
 
-	strukt := c.block().NewAlloca(ptr.ElemType)
+	strukt := c.newAlloca(ptr.ElemType)
 	for i := range commaExpression.Expressions {
 		address := c.block().NewGetElementPtr(strukt.ElemType, strukt, zero, constant.NewInt(types.I32, int64(i)))
 		c.block().NewStore(values[i], address)
@@ -1797,7 +1798,7 @@ func (c *Compiler) compileMultipleDeclarationStatement(m *ast.MultipleDeclaratio
 	c.doNotLoadIntoMemory = false
 	c.doNotAllocate = false
 	if !types.IsPointer(strukt.Type()) {
-		struktPtr := c.block().NewAlloca(strukt.Type())
+		struktPtr := c.newAlloca(strukt.Type())
 		c.block().NewStore(strukt, struktPtr)
 		strukt = struktPtr
 	}
diff --git a/internals/compiler/compiler_utils.go b/internals/compiler/compiler_utils.go
index 392357e..f21ef43 100644
--- a/internals/compiler/compiler_utils.go
+++ b/internals/compiler/compiler_utils.go
@@ -170,3 +170,12 @@ func (c *Compiler) asm(outputType types.Type, inlineAsm string, params ...value.
 	inlineAsmCall := ir.NewInlineAsm(types.NewPointer(types.NewFunc(outputType, paramTypes...)), inlineAsm, constraintOutput+"~{dirflag},~{fpsr},~{flags}")
 	return c.block().NewCall(inlineAsmCall, params...)
 }
+
+// newAlloca reserves memory in the entry block of the function, an alloca anywhere else
+// takes memory of the stack each time it's executed, and a loop would exhaust it.
+func (c *Compiler) newAlloca(t types.Type) *ir.InstAlloca {
+	alloca := ir.NewAlloca(t)
+	entry := c.block().Parent.Blocks[0]
+	entry.Insts = append([]ir.Instruction{alloca}, entry.Insts...)
+	return alloca
+}
-- 
2.43.0


From 61af2cc4f8e160db4a5812cf8308a0251e3d7e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:58 +0000
Subject: [PATCH 25/90] fix: @print of an i1 printed undefined bits, -1 in
 optimized builds

---
 internals/compiler/compiler_format.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internals/compiler/compiler_format.go b/internals/compiler/compiler_format.go
index ba64922..99b7e48 100644
--- a/internals/compiler/compiler_format.go
+++ b/internals/compiler/compiler_format.go
@@ -25,6 +25,11 @@ func (c *Compiler) getFormatString(expressions []value.Value, t types.Type, call
 		}
 
 		if integer, isSigned := call.Parameters[current].GetType().(*ctypes.Integer); isSigned {
+			if integer.BitSize == 1 {
+				// the bits over the first one of a variadic i1 are not defined
+				expressions[current+1] = c.block().NewZExt(expressions[current+1], types.I8)
+			}
+
 			if integer.BitSize == 1 || integer.BitSize == 8 {
 				return "%hhd"
 			}
-- 
2.43.0


From e0e502bf5645b8c144d1279b443e777409d2d218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:19 +0000
Subject: [PATCH 26/90] fix: shifting by an integer of another width emitted
 invalid code

---
 internals/compiler/compiler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index fff5774..794c11e 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1653,12 +1653,15 @@ func (c *Compiler) compileXorBinary(expr *ast.BinaryOperation) value.Value {
 func (c *Compiler) compileShiftRightBinary(expr *ast.BinaryOperation) value.Value {
 	leftValue := c.loadIfPointer(c.compileExpression(expr.Left))
 	rightValue := c.loadIfPointer(c.compileExpression(expr.Right))
+	// both operands must have the same width
+	rightValue = c.handleIntegerCast(leftValue.Type().(*types.IntType), rightValue, expr.Right.GetType())
 	return c.block().NewLShr(leftValue, rightValue)
 }
 
 func (c *Compiler) compileShiftLeftBinary(expr *ast.BinaryOperation) value.Value {
 	leftValue := c.loadIfPointer(c.compileExpression(expr.Left))
 	rightValue := c.loadIfPointer(c.compileExpression(expr.Right))
+	rightValue = c.handleIntegerCast(leftValue.Type().(*types.IntType), rightValue, expr.Right.GetType())
 	return c.block().NewShl(leftValue, rightValue)
 }
 
-- 
2.43.0


From aac0e8360215c72771ecb8dae45b2ae52f98260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:58 +0000
Subject: [PATCH 27/90] fix: true compared less than false and became -1.0 as a
 float; NaN was neither equal nor different

---
 internals/compiler/compiler.go             | 4 ++--
 internals/compiler/compiler_comparisons.go | 7 ++++++-
 internals/compiler/compiler_conversions.go | 9 +++++++--
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 794c11e..4acced2 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1604,7 +1604,7 @@ func (c *Compiler) compileDivide(expr *ast.BinaryOperation) value.Value {
 	leftValue := c.loadIfPointer(c.compileExpression(expr.Left))
 	rightValue := c.loadIfPointer(c.compileExpression(expr.Right))
 	if types.IsInt(leftValue.Type()) {
-		if _, isUnsigned := expr.Type.(*ctypes.UInteger); isUnsigned {
+		if isUnsigned(expr.Type) {
 			return c.block().NewUDiv(leftValue, rightValue)
 		}
 		return c.block().NewSDiv(leftValue, rightValue)
@@ -1620,7 +1620,7 @@ func (c *Compiler) compileModulo(expr *ast.BinaryOperation) value.Value {
 	leftValue := c.loadIfPointer(c.compileExpression(expr.Left))
 	rightValue := c.loadIfPointer(c.compileExpression(expr.Right))
 	if types.IsInt(leftValue.Type()) {
-		if _, isUnsigned := expr.Type.(*ctypes.UInteger); isUnsigned {
+		if isUnsigned(expr.Type) {
 			return c.block().NewURem(leftValue, rightValue)
 		}
 		return c.block().NewSRem(leftValue, rightValue)
diff --git a/internals/compiler/compiler_comparisons.go b/internals/compiler/compiler_comparisons.go
index 4f5ca8b..3330dc3 100644
--- a/internals/compiler/compiler_comparisons.go
+++ b/internals/compiler/compiler_comparisons.go
@@ -48,7 +48,7 @@ func (c *Compiler) getFPredComparison(op ops.Operation, t ctypes.Type) enum.FPre
 		case ops.Equals:
 			return enum.FPredOEQ
 		case ops.NotEquals:
-			return enum.FPredONE
+			return enum.FPredUNE
 		}
 	}
 
@@ -57,6 +57,11 @@ func (c *Compiler) getFPredComparison(op ops.Operation, t ctypes.Type) enum.FPre
 }
 
 func (c *Compiler) getIPredComparison(op ops.Operation, t ctypes.Type) enum.IPred {
+	// The only bit of a boolean isn't a sign, otherwise true would be less than false
+	if t == ctypes.I1 {
+		t = ctypes.U8
+	}
+
 	if _, ok := t.(*ctypes.Integer); ok {
 		switch op {
 		case ops.GreaterThanEqual:
diff --git a/internals/compiler/compiler_conversions.go b/internals/compiler/compiler_conversions.go
index bda0876..a91c288 100644
--- a/internals/compiler/compiler_conversions.go
+++ b/internals/compiler/compiler_conversions.go
@@ -76,15 +76,20 @@ func (c *Compiler) handleFloatCast(toReturnType *types.FloatType, variable value
 func (c *Compiler) handleFloatIntCast(typeParameter ctypes.Type, parameter ctypes.Type, variable value.Value, toReturn types.Type) value.Value {
 
 	if ctypes.IsFloat(parameter) {
-		return c.floatToInt(toReturn.(*types.IntType), variable, ctypes.IsUnsignedInteger(typeParameter))
+		return c.floatToInt(toReturn.(*types.IntType), variable, isUnsigned(typeParameter))
 	} else if ctypes.IsFloat(typeParameter) {
-		return c.intToFloat(toReturn.(*types.FloatType), variable, ctypes.IsUnsignedInteger(parameter))
+		return c.intToFloat(toReturn.(*types.FloatType), variable, isUnsigned(parameter))
 	}
 
 	c.exitInternalError("atleast one parameter need to be a float")
 	panic("")
 }
 
+// isUnsigned returns whether the highest bit of the integer type isn't a sign
+func isUnsigned(t ctypes.Type) bool {
+	return t == ctypes.I1 || ctypes.IsUnsignedInteger(t)
+}
+
 func (c *Compiler) floatToInt(toReturn *types.IntType, variable value.Value, isUnsigned bool) value.Value {
 	if isUnsigned {
 		return c.block().NewFPToUI(variable, toReturn)
-- 
2.43.0


From c2e8fd10cda7237a008023a77d48f79fe0863714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:53 +0000
Subject: [PATCH 28/90] fix: comparing structs, casting arrays, bitwise on
 floats passed the checker but stopped the compiler

---
 internals/compiler/compiler.go         | 5 ++---
 internals/semantic/semantic.go         | 5 ++++-
 internals/semantic/semantic_builtin.go | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 4acced2..d8c0802 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1691,11 +1691,10 @@ func (c *Compiler) handleCast(call *ast.BuiltinCall) value.Value {
 	}
 
 	if ctypes.IsNumeric(call.TypeParameters[0]) && ctypes.IsPointer(call.Parameters[0].GetType()) {
-		integer := c.block().NewPtrToInt(variable, toReturnType)
 		if _, isFloat := call.TypeParameters[0].(*ctypes.Float); isFloat {
-			return c.block().NewSIToFP(integer, toReturnType)
+			return c.block().NewUIToFP(c.block().NewPtrToInt(variable, types.I64), toReturnType)
 		}
-		return integer
+		return c.block().NewPtrToInt(variable, toReturnType)
 	}
 
 	if ctypes.IsPointer(call.TypeParameters[0]) && ctypes.IsNumeric(call.Parameters[0].GetType()) { ///types.IsInt(variable.Type()) {
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index beccbd1..758510a 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1397,11 +1397,14 @@ func (s *Semantic) analyzeArithmetic(binaryOperation *ast.BinaryOperation) ctype
 	if binaryOperation.Operation.IsComparison() {
 		if ctypes.IsArray(left) {
 			s.errorWithStatement("Candice can't compare arrays for you, you should try to cast them to a pointer and then compare again if you want a pointer comparison", binaryOperation.Token)
+		} else if !ctypes.IsNumeric(left) && !ctypes.IsPointer(left) {
+			s.cantOperateThisOperationError(binaryOperation, left, right)
 		}
 		return ctypes.I1
 	}
 
-	if ctypes.IsNumeric(left) {
+	isBitwise := binaryOperation.Operation == ops.BinaryAND || binaryOperation.Operation == ops.BinaryOR || binaryOperation.Operation == ops.BinaryXOR
+	if ctypes.IsNumeric(left) && !(isBitwise && ctypes.IsFloat(left)) {
 		return left
 	}
 
diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 2861745..094c486 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -24,8 +24,9 @@ func (s *Semantic) analyzeCast(castCall *ast.BuiltinCall) ctypes.Type {
 	currentType := s.UnwrapAnonymous(s.analyzeExpression(castCall.Parameters[0]))
 	toType := s.UnwrapAnonymous(castCall.TypeParameters[0])
 	castCall.TypeParameters[0] = toType
-	if (ctypes.IsPointer(currentType) || ctypes.IsArray(currentType) || ctypes.IsNumeric(currentType)) &&
-		(ctypes.IsPointer(toType) || ctypes.IsArray(toType) || ctypes.IsNumeric(toType)) {
+	// An array can only become a pointer to its elements
+	if (ctypes.IsPointer(currentType) || ctypes.IsNumeric(currentType)) && (ctypes.IsPointer(toType) || ctypes.IsNumeric(toType)) ||
+		ctypes.IsArray(currentType) && ctypes.IsPointer(toType) {
 		castCall.Type = toType
 		return toType
 	}
-- 
2.43.0


From 94dbc68f99247e91df75d444aa994455a2259839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:36 +0000
Subject: [PATCH 29/90] fix: indexes, allocations and switches with floats,
 duplicated names, void values and assigned functions passed the checker but
 stopped the compiler; an index couldn't be a constant in an assignment

---
 internals/compiler/compiler.go         |  5 +++
 internals/ops/operations.go            |  2 +-
 internals/semantic/semantic.go         | 44 ++++++++++++++++++++------
 internals/semantic/semantic_builtin.go |  9 ++++--
 internals/semantic/semantic_steps.go   | 17 +++++++++-
 5 files changed, 63 insertions(+), 14 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index d8c0802..fa05333 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1737,6 +1737,11 @@ func (c *Compiler) compileSwitchStatement(switchStatement *ast.SwitchStatement)
 	for i, caseStatement := range switchStatement.Cases {
 		possibleNonConstantExpression := c.compileConstantExpression(caseStatement.Case)
 		if constant, isConstant := possibleNonConstantExpression.(constant.Constant); isConstant {
+			for _, previous := range cases {
+				if previous.X.Ident() == constant.Ident() {
+					c.exitErrorExpression("duplicated case in a switch", caseStatement.Case)
+				}
+			}
 			caseBlock := c.currentFunction.NewBlock(fmt.Sprintf("case-%d-%s", i, casesId))
 			irCase := ir.NewCase(constant, caseBlock)
 			cases = append(cases, irCase)
diff --git a/internals/ops/operations.go b/internals/ops/operations.go
index 5097cad..7ec8133 100644
--- a/internals/ops/operations.go
+++ b/internals/ops/operations.go
@@ -77,7 +77,7 @@ func (o Operation) String() string {
 		return "<="
 	case Equals:
 		return "=="
-	case Assigns:
+	case Assigns, TempAssign:
 		return "="
 	case NotEquals:
 		return "!="
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 758510a..eb46dcd 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -136,7 +136,7 @@ func (s *Semantic) errorWithExpression(msg string, expr ast.Expression) {
 }
 
 func (s *Semantic) warning(msg string, tok token.Token) {
-	s.Warnings = append(s.Errors, errors.New(fmt.Sprintf("[%d:%d] %s", tok.Line, tok.Position, msg)))
+	s.Warnings = append(s.Warnings, errors.New(fmt.Sprintf("[%d:%d] %s", tok.Line, tok.Position, msg)))
 }
 
 func (s *Semantic) GetModule(name string) *Semantic {
@@ -837,8 +837,12 @@ func (s *Semantic) analyzeIndexAccess(indexAccess *ast.IndexAccess) ctypes.Type
 		s.errorWithStatement("expected a pointer or an array for an index access, instead we got "+leftType.String(), indexAccess.Token)
 	}
 
+	// the index of an element that is assigned isn't mutated
+	expectNonConstantExpression := s.expectNonConstantExpression
+	s.expectNonConstantExpression = false
 	indexType := s.analyzeExpression(indexAccess.Access)
-	if !ctypes.IsNumeric(indexType) {
+	s.expectNonConstantExpression = expectNonConstantExpression
+	if !ctypes.IsInteger(indexType) {
 		s.typeMismatchError(indexAccess.String(), indexAccess.Access, indexAccess.Token, ctypes.I32, indexType)
 	}
 
@@ -958,6 +962,10 @@ func (s *Semantic) analyzeArrayLiteral(arrayLiteral *ast.ArrayLiteral) ctypes.Ty
 
 func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 	s.throwInvalidOperationForConstant("can't call non constant functions for a constant expression", call)
+	// calling a function doesn't mutate it nor its parameters
+	expectNonConstantExpression := s.expectNonConstantExpression
+	s.expectNonConstantExpression = false
+	defer func() { s.expectNonConstantExpression = expectNonConstantExpression }()
 	possibleFuncType := s.analyzeExpression(call.Left)
 
 	// it is possible that we are retrieving a sturct access with function
@@ -1016,6 +1024,10 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 	if identifierType := s.variables.Get(identifier.Name); identifierType != nil {
 		identifier.Type = identifierType.Type
 
+		if identifierType.IsConstant && s.expectNonConstantExpression {
+			s.errorWithStatement("you are trying to mutate a constant, '"+identifier.String()+"' is a constant variable", identifier.Token)
+		}
+
 		if identifierType.parentFunction != s.currentFunctionBeingAnalyzed && identifierType.parentFunction != nil {
 			s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables =
 				append(s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables, identifier.Name)
@@ -1028,10 +1040,6 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 			s.errorWithStatement("this expression should be constant and '"+identifier.String()+"' is not a constant variable", identifier.Token)
 		}
 
-		if identifierType.IsConstant && s.expectNonConstantExpression {
-			s.errorWithStatement("you are trying to mutate a constant, '"+identifier.String()+"' is a constant variable", identifier.Token)
-		}
-
 		return identifierType.Type
 	}
 
@@ -1040,7 +1048,12 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 }
 
 func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation) ctypes.Type {
+	expectNonConstantExpression := s.expectNonConstantExpression
+	if prefixOperation.Operation == ops.AddOne || prefixOperation.Operation == ops.SubtractOne {
+		s.expectNonConstantExpression = true
+	}
 	t := s.UnwrapAnonymous(s.analyzeExpression(prefixOperation.Right))
+	s.expectNonConstantExpression = expectNonConstantExpression
 	prefixOperation.Type = t
 	if prefixOperation.Operation == ops.Add {
 		if !ctypes.IsNumeric(t) {
@@ -1140,6 +1153,10 @@ func (s *Semantic) analyzeModuleAccess(module *Semantic, binaryOp *ast.BinaryOpe
 		return ctypes.TODO()
 	}
 
+	if accessedElement.IsConstant && s.expectNonConstantExpression {
+		s.errorWithStatement("you are trying to mutate a constant, '"+binaryOp.String()+"' is a constant variable", binaryOp.Token)
+	}
+
 	binaryOp.Type = accessedElement.Type
 
 	return accessedElement.Type
@@ -1153,7 +1170,7 @@ func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) *c
 		}
 
 		if funk, isFunction := v.Type.(*ctypes.Function); isFunction {
-			if !s.areTypesEqual(funk.Parameters[0], t) {
+			if len(funk.Parameters) == 0 || !s.areTypesEqual(funk.Parameters[0], t) {
 				continue
 			}
 
@@ -1168,7 +1185,7 @@ func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) *c
 	}
 
 	if funk, isFunction := v.Type.(*ctypes.Function); isFunction {
-		if !s.areTypesEqual(funk.Parameters[0], t) {
+		if len(funk.Parameters) == 0 || !s.areTypesEqual(funk.Parameters[0], t) {
 			return nil
 		}
 
@@ -1239,7 +1256,11 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 		}
 
 		fn := variable.Type.(*ctypes.Function)
-		if len(fn.Parameters) == 0 || !s.areTypesEqual(fn.Parameters[0], left) {
+		if len(fn.Parameters) == 0 {
+			s.errorWithStatement("unknown field "+binaryOperation.String(), binaryOperation.Token)
+			return ctypes.TODO()
+		}
+		if !s.areTypesEqual(fn.Parameters[0], left) {
 			s.typeMismatchError(binaryOperation.String(), binaryOperation.Left, binaryOperation.Token, fn.Parameters[0], left)
 			return ctypes.TODO()
 		}
@@ -1439,6 +1460,11 @@ func (s *Semantic) analyzeSwitchStatement(switchStatement *ast.SwitchStatement)
 	s.expectStatementInsideFunction(switchStatement.Token)
 	condition := s.UnwrapAnonymous(s.analyzeExpression(switchStatement.Condition))
 
+	if !ctypes.IsInteger(condition) {
+		s.typeMismatchError(switchStatement.Condition.String(), switchStatement.Condition, switchStatement.Token, ctypes.I32, condition)
+		return
+	}
+
 	allCasesReturn := true
 
 	for _, caseStatement := range switchStatement.Cases {
diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 094c486..451be2f 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -22,7 +22,7 @@ func (s *Semantic) analyzeAddCompilerFlag(addCompilerFlag *ast.BuiltinCall) ctyp
 func (s *Semantic) analyzeCast(castCall *ast.BuiltinCall) ctypes.Type {
 
 	currentType := s.UnwrapAnonymous(s.analyzeExpression(castCall.Parameters[0]))
-	toType := s.UnwrapAnonymous(castCall.TypeParameters[0])
+	toType := s.UnwrapAnonymous(s.replaceAnonymous(castCall.TypeParameters[0]))
 	castCall.TypeParameters[0] = toType
 	// An array can only become a pointer to its elements
 	if (ctypes.IsPointer(currentType) || ctypes.IsNumeric(currentType)) && (ctypes.IsPointer(toType) || ctypes.IsNumeric(toType)) ||
@@ -48,7 +48,7 @@ func (s *Semantic) analyzeAlloc(allocCall *ast.BuiltinCall) ctypes.Type {
 	t := s.UnwrapAnonymous(s.replaceAnonymous(allocCall.TypeParameters[0]))
 	allocCall.TypeParameters[0] = t
 	expr := s.analyzeExpression(allocCall.Parameters[0])
-	if !ctypes.IsNumeric(expr) {
+	if !ctypes.IsInteger(expr) {
 		s.typeMismatchError(allocCall.String(), allocCall.Parameters[0], allocCall.Token, ctypes.I32, expr)
 	}
 	allocCall.Type = &ctypes.Pointer{Inner: t}
@@ -63,7 +63,10 @@ func (s *Semantic) analyzeUnreachable(_ *ast.BuiltinCall) ctypes.Type {
 func (s *Semantic) analyzePrintln(printCall *ast.BuiltinCall) ctypes.Type {
 	s.throwInvalidOperationForConstant("you can't print on constants", printCall)
 	for _, param := range printCall.Parameters {
-		s.analyzeExpression(param)
+		t := s.analyzeExpression(param)
+		if _, isList := t.(*ctypes.TypeList); isList || t == ctypes.VoidType {
+			s.errorWithStatement("can't print "+param.String()+" because it isn't one value", printCall.Token)
+		}
 	}
 	return ctypes.VoidType
 }
diff --git a/internals/semantic/semantic_steps.go b/internals/semantic/semantic_steps.go
index 3decf19..1bbc42c 100644
--- a/internals/semantic/semantic_steps.go
+++ b/internals/semantic/semantic_steps.go
@@ -3,6 +3,7 @@ package semantic
 import (
 	"github.com/gabivlj/candice/internals/ast"
 	"github.com/gabivlj/candice/internals/ctypes"
+	"github.com/gabivlj/candice/internals/token"
 )
 
 func (s *Semantic) predefineTypes(statements []ast.Statement) {
@@ -11,11 +12,13 @@ func (s *Semantic) predefineTypes(statements []ast.Statement) {
 		switch t := statement.(type) {
 		case *ast.UnionStatement:
 			{
+				s.expectUndefinedType(t.Type.Name, t.Token)
 				s.definedTypes[t.Type.Name] = t.Type
 			}
 
 		case *ast.StructStatement:
 			{
+				s.expectUndefinedType(t.Type.Name, t.Token)
 				s.definedTypes[t.Type.Name] = t.Type
 			}
 
@@ -27,6 +30,12 @@ func (s *Semantic) predefineTypes(statements []ast.Statement) {
 	}
 }
 
+func (s *Semantic) expectUndefinedType(name string, tok token.Token) {
+	if _, exists := s.definedTypes[name]; exists {
+		s.error("the type '"+ast.RetrieveID(name)+"' is already defined", tok)
+	}
+}
+
 func (s *Semantic) predefineFunctions(statements []ast.Statement) {
 	for _, statement := range statements {
 		s.currentStatementBeingAnalyzed = statement
@@ -39,7 +48,13 @@ func (s *Semantic) predefineFunctions(statements []ast.Statement) {
 				s.enterFrame()
 				s.replaceAnonymousFunctionParameterTypes(t.FunctionType)
 				s.leaveFrame()
-				s.variables.Add(t.FunctionType.Name, s.newType(t.FunctionType))
+				if existing := s.variables.Get(t.FunctionType.Name); existing != nil {
+					s.error("the function '"+ast.RetrieveID(t.FunctionType.Name)+"' is already defined", t.Token)
+				}
+				function := s.newType(t.FunctionType)
+				// The function itself can't be assigned
+				function.IsConstant = true
+				s.variables.Add(t.FunctionType.Name, function)
 			}
 
 		case *ast.MacroBlock:
-- 
2.43.0


From a3dc5df3d1befcf4d8a760e549f9aeebdae71236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 30/90] fix: pointers to void emitted invalid code

---
 internals/compiler/compiler_format.go | 4 ++++
 internals/compiler/compiler_types.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/internals/compiler/compiler_format.go b/internals/compiler/compiler_format.go
index 99b7e48..456ed6d 100644
--- a/internals/compiler/compiler_format.go
+++ b/internals/compiler/compiler_format.go
@@ -46,6 +46,10 @@ func (c *Compiler) getFormatString(expressions []value.Value, t types.Type, call
 		}
 	}
 
+	if pointer, isPointer := call.Parameters[current].GetType().(*ctypes.Pointer); isPointer && pointer.Inner == ctypes.VoidType {
+		return "%p"
+	}
+
 	if pointer, isPointer := t.(*types.PointerType); isPointer {
 		if i, ok := pointer.ElemType.(*types.IntType); ok && i.BitSize == 8 {
 			return "%s"
diff --git a/internals/compiler/compiler_types.go b/internals/compiler/compiler_types.go
index 4105a03..04a66d0 100644
--- a/internals/compiler/compiler_types.go
+++ b/internals/compiler/compiler_types.go
@@ -105,6 +105,10 @@ func (c *Compiler) ToLLVMType(t ctypes.Type) types.Type {
 		}
 	case *ctypes.Pointer:
 		{
+			// LLVM doesn't have pointers to void
+			if el.Inner == ctypes.VoidType {
+				return types.I8Ptr
+			}
 			return types.NewPointer(c.ToLLVMType(el.Inner))
 		}
 
-- 
2.43.0


From 1f5b05fe0279e2ecc16a97c9197aa63c43879d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:14 +0000
Subject: [PATCH 31/90] fix: widening an i1 that had been stored extended its
 bit as a sign

---
 internals/compiler/compiler_conversions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_conversions.go b/internals/compiler/compiler_conversions.go
index a91c288..e7bd27c 100644
--- a/internals/compiler/compiler_conversions.go
+++ b/internals/compiler/compiler_conversions.go
@@ -36,7 +36,7 @@ func (c *Compiler) handleIntegerCast(toReturnType *types.IntType, variable value
 		return variable
 	}
 
-	if variable.Type() == types.I1 {
+	if variableType.BitSize == 1 {
 		// SExt extends the bit sign of the variable, i1 can be considered as a sign, so
 		// it will be extended accross all the bits, for example if you cast
 		// i1 '1' to i8, you will get 111...1110, which is -1.
-- 
2.43.0


From 4bcc4eef337a7ce5cd066bd42babfd9b16e9303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 32/90] fix: code after an if or switch that always returns was
 compiled without being analyzed

---
 internals/compiler/compiler.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index fa05333..6c30a7e 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -687,6 +687,10 @@ func (c *Compiler) compileIf(ifStatement *ast.IfStatement) {
 	}
 
 	leaveBlock := c.currentFunction.NewBlock("lastLeave." + random.RandomString(10))
+	if ifStatement.Else != nil && allTerminated(strandedBlocks) {
+		// The statements after the if are dead code
+		leaveBlock.NewUnreachable()
+	}
 
 	if lastJumpToCondition.Term == nil {
 		lastJumpToCondition.NewBr(leaveBlock)
@@ -709,6 +713,16 @@ func (c *Compiler) compileIf(ifStatement *ast.IfStatement) {
 
 }
 
+func allTerminated(blocks []*ir.Block) bool {
+	for _, block := range blocks {
+		if block.Term == nil {
+			return false
+		}
+	}
+
+	return true
+}
+
 func (c *Compiler) compileFor(forLoop *ast.ForStatement) {
 	// Exit point
 	leave := ir.NewBlock("leave." + random.RandomString(10))
@@ -1754,6 +1768,11 @@ func (c *Compiler) compileSwitchStatement(switchStatement *ast.SwitchStatement)
 
 	c.block().Term = c.block().NewSwitch(condition, defaultBlock, cases...)
 
+	if switchStatement.Default != nil && allTerminated(strandedBlocks) {
+		// The statements after the switch are dead code
+		leaveBlock.NewUnreachable()
+	}
+
 	for _, strandedBlock := range strandedBlocks {
 		if strandedBlock.Term == nil {
 			strandedBlock.NewBr(leaveBlock)
-- 
2.43.0


From 2506c56c6b3dfb15427a45e7d473217a22625414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:56 +0000
Subject: [PATCH 33/90] fix: an assignment to a place that starts with a
 parenthesis was rejected

---
 internals/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 97cd7d1..e8c3e05 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -175,7 +175,7 @@ func (p *Parser) parseStatement() ast.Statement {
 		return p.parseExtern()
 	case token.IDENT:
 		return p.parseIdentifierStatement()
-	case token.ASTERISK:
+	case token.ASTERISK, token.LPAREN:
 		return p.parsePossibleAssignment()
 	case token.IF:
 		return p.parseIf()
-- 
2.43.0


From 0243447fe38fc96f5d5daa15110c267629104e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:02 +0000
Subject: [PATCH 34/90] fix: comparing the value of a block expression used it
 before it was computed

---
 internals/compiler/compiler_comparisons.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/internals/compiler/compiler_comparisons.go b/internals/compiler/compiler_comparisons.go
index 3330dc3..b44be55 100644
--- a/internals/compiler/compiler_comparisons.go
+++ b/internals/compiler/compiler_comparisons.go
@@ -20,18 +20,15 @@ func (c *Compiler) handleComparisonOperations(expr *ast.BinaryOperation) value.V
 		}
 	}
 
+	// Compiling an operand can change the current block
+	leftValue := c.loadIfPointer(c.compileExpression(expr.Left))
+	rightValue := c.loadIfPointer(c.compileExpression(expr.Right))
+
 	if _, isFloat := expr.Left.GetType().(*ctypes.Float); isFloat {
-		return c.block().NewFCmp(
-			c.getFPredComparison(expr.Operation, expr.Left.GetType()),
-			c.loadIfPointer(c.compileExpression(expr.Left)),
-			c.loadIfPointer(c.compileExpression(expr.Right)),
-		)
+		return c.block().NewFCmp(c.getFPredComparison(expr.Operation, expr.Left.GetType()), leftValue, rightValue)
 	}
 
-	return c.block().NewICmp(c.getIPredComparison(expr.Operation, expr.Left.GetType()),
-		c.loadIfPointer(c.compileExpression(expr.Left)),
-		c.loadIfPointer(c.compileExpression(expr.Right)),
-	)
+	return c.block().NewICmp(c.getIPredComparison(expr.Operation, expr.Left.GetType()), leftValue, rightValue)
 }
 
 func (c *Compiler) getFPredComparison(op ops.Operation, t ctypes.Type) enum.FPred {
-- 
2.43.0


From 6fb62a88de2a79f9e4844dae0fc3684cf1707be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:40 +0000
Subject: [PATCH 35/90] fix: a block expression in an else if after a branch
 that returns wasn't analyzed

---
 internals/semantic/semantic.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index eb46dcd..89ef660 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1364,6 +1364,7 @@ func (s *Semantic) analyzeExpressionBlock(blockExpression *ast.ExpressionBlock)
 	}()
 
 	s.currentExpectedReturnType = t
+	s.returns = false
 	s.analyzeBlock(blockExpression.Block)
 	if !s.returns {
 		s.errorWithStatement(fmt.Sprintf("not all paths of expression block return type %q", t.String()), blockExpression.Token)
-- 
2.43.0


From de4e709def2ed58b9f6fd12fee035f1934dd7546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:57 +0000
Subject: [PATCH 36/90] fix: a variable captured through another anonymous
 function emitted invalid code

---
 internals/semantic/semantic.go | 69 +++++++++++++++++++++++++---------
 1 file changed, 51 insertions(+), 18 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 89ef660..0f5dc9d 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -24,18 +24,20 @@ import (
 type Semantic struct {
 	variables *undomap.UndoMap[string, *SemanticType]
 
-	definedTypes                          map[string]ctypes.Type
-	builtinHandlers                       map[string]func(builtin *ast.BuiltinCall) ctypes.Type
-	currentStatementBeingAnalyzed         ast.Statement
-	currentFunctionBeingAnalyzed          *ctypes.Function
-	currentAnonymousFunctionBeingAnalyzed *ast.AnonymousFunction
-	returns                               bool
-	currentExpectedReturnType             ctypes.Type
-	Errors                                []error
-	Warnings                              []error
-	insideBreakableBlock                  bool
-	expectConstantExpression              bool
-	expectNonConstantExpression           bool
+	definedTypes                      map[string]ctypes.Type
+	builtinHandlers                   map[string]func(builtin *ast.BuiltinCall) ctypes.Type
+	currentStatementBeingAnalyzed     ast.Statement
+	currentFunctionBeingAnalyzed      *ctypes.Function
+	currentNamedFunctionBeingAnalyzed *ctypes.Function
+	// Anonymous functions being analyzed inside the current named function, the innermost is the last
+	anonymousFunctionsBeingAnalyzed []*ast.AnonymousFunction
+	returns                         bool
+	currentExpectedReturnType       ctypes.Type
+	Errors                          []error
+	Warnings                        []error
+	insideBreakableBlock            bool
+	expectConstantExpression        bool
+	expectNonConstantExpression     bool
 
 	// We maintain references to other semantic analyzers here, those are generated by import statements.
 	// The structure of this map is
@@ -330,7 +332,10 @@ func (s *Semantic) analyzeForStatement(forStatement *ast.ForStatement) {
 }
 
 func (s *Semantic) analyzeFunctionStatement(fun *ast.FunctionDeclarationStatement) {
+	tmpNamed, tmpAnonymous := s.currentNamedFunctionBeingAnalyzed, s.anonymousFunctionsBeingAnalyzed
+	s.currentNamedFunctionBeingAnalyzed, s.anonymousFunctionsBeingAnalyzed = fun.FunctionType, nil
 	s.analyzeFunctionType(fun.Token, fun.FunctionType, fun.Block)
+	s.currentNamedFunctionBeingAnalyzed, s.anonymousFunctionsBeingAnalyzed = tmpNamed, tmpAnonymous
 }
 
 func (s *Semantic) replaceAnonymousFunctionParameterTypes(fun *ctypes.Function) {
@@ -385,20 +390,47 @@ func (s *Semantic) analyzeAnonymousFunction(anonymousFunction *ast.AnonymousFunc
 	// the loop around the function isn't reachable from its body
 	tmpInsideBreakableBlock := s.insideBreakableBlock
 	s.insideBreakableBlock = false
-	tmpAnon := s.currentAnonymousFunctionBeingAnalyzed
+	tmpAnon := s.anonymousFunctionsBeingAnalyzed
 	tmpFun := s.currentFunctionBeingAnalyzed
 	s.currentFunctionBeingAnalyzed = anonymousFunction.FunctionType
-	s.currentAnonymousFunctionBeingAnalyzed = anonymousFunction
+	s.anonymousFunctionsBeingAnalyzed = append(tmpAnon[:len(tmpAnon):len(tmpAnon)], anonymousFunction)
 	s.analyzeFunctionType(anonymousFunction.Token, anonymousFunction.FunctionType, anonymousFunction.Block)
 	s.currentFunctionBeingAnalyzed = tmpFun
-	s.currentAnonymousFunctionBeingAnalyzed = tmpAnon
+	s.anonymousFunctionsBeingAnalyzed = tmpAnon
 	s.returns = temporaryReturns
 	s.insideBreakableBlock = tmpInsideBreakableBlock
 	return anonymousFunction.FunctionType
 }
 
 func (s *Semantic) analyzingInsideFunction() bool {
-	return s.currentFunctionBeingAnalyzed != nil || s.currentAnonymousFunctionBeingAnalyzed != nil
+	return s.currentFunctionBeingAnalyzed != nil
+}
+
+// capture adds the variable to every anonymous function between the one that declares it and
+// the one that uses it. Returns false when there is a named function in between.
+func (s *Semantic) capture(name string, declaredIn *ctypes.Function) bool {
+	anonymousFunctions := s.anonymousFunctionsBeingAnalyzed
+	first := len(anonymousFunctions)
+	for first > 0 && anonymousFunctions[first-1].FunctionType != declaredIn {
+		first--
+	}
+
+	if first == 0 && declaredIn != s.currentNamedFunctionBeingAnalyzed {
+		return false
+	}
+
+	for _, anonymousFunction := range anonymousFunctions[first:] {
+		captured := false
+		for _, variable := range anonymousFunction.CapturedVariables {
+			captured = captured || variable == name
+		}
+
+		if !captured {
+			anonymousFunction.CapturedVariables = append(anonymousFunction.CapturedVariables, name)
+		}
+	}
+
+	return true
 }
 
 func (s *Semantic) expectStatementInsideFunction(t token.Token) {
@@ -1029,8 +1061,9 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 		}
 
 		if identifierType.parentFunction != s.currentFunctionBeingAnalyzed && identifierType.parentFunction != nil {
-			s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables =
-				append(s.currentAnonymousFunctionBeingAnalyzed.CapturedVariables, identifier.Name)
+			if !s.capture(identifier.Name, identifierType.parentFunction) {
+				s.errorWithStatement("a function can't use the local variable '"+identifier.String()+"' of another function", identifier.Token)
+			}
 			identifierTypeUnwrap := s.UnwrapAnonymous(s.replaceAnonymous(identifierType.Type))
 			s.variables.Add(identifier.Name, &SemanticType{Type: identifierTypeUnwrap, parentFunction: s.currentFunctionBeingAnalyzed})
 			return identifierTypeUnwrap
-- 
2.43.0


From 53adae6c77d587a26d869ad861c99c72b15abdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 37/90] fix: a local constant stopped being constant inside an
 anonymous function

---
 internals/semantic/semantic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 0f5dc9d..b89ec83 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1060,7 +1060,7 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 			s.errorWithStatement("you are trying to mutate a constant, '"+identifier.String()+"' is a constant variable", identifier.Token)
 		}
 
-		if identifierType.parentFunction != s.currentFunctionBeingAnalyzed && identifierType.parentFunction != nil {
+		if !identifierType.IsConstant && identifierType.parentFunction != s.currentFunctionBeingAnalyzed && identifierType.parentFunction != nil {
 			if !s.capture(identifier.Name, identifierType.parentFunction) {
 				s.errorWithStatement("a function can't use the local variable '"+identifier.String()+"' of another function", identifier.Token)
 			}
-- 
2.43.0


From fd9132ef2622347f2d045333ca8b5f22aff5e121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:33 +0000
Subject: [PATCH 38/90] fix: character literals understand escapes

---
 internals/lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 657608b..d0d04e4 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -88,7 +88,7 @@ func (l *Lexer) readTwoBytesToken(t token.TypeToken, peek byte) token.Token {
 func (l *Lexer) readCharLiteral() token.Token {
 	l.readChar()
 	var literal byte
-	if l.peekChar() == '\\' {
+	if l.ch == '\\' && l.peekChar() != '\'' {
 		// it's a \n or \t
 		l.readChar()
 		c := l.ch
-- 
2.43.0


From ef4f0d28b57f28ef89f1ae973df83797e964e98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:41 +0000
Subject: [PATCH 39/90] fix: strings and characters keep the bytes of the
 source

---
 internals/ast/expressions.go |  2 +-
 internals/lexer/lexer.go     | 12 ++++++------
 internals/parser/parser.go   |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/internals/ast/expressions.go b/internals/ast/expressions.go
index dc1bd62..7fa5e91 100644
--- a/internals/ast/expressions.go
+++ b/internals/ast/expressions.go
@@ -195,7 +195,7 @@ func (i *Integer) String() string {
 	}
 
 	if i.Token.Type == token.CHAR {
-		return fmt.Sprintf("'%c'", i.Value)
+		return "'" + string([]byte{byte(i.Value)}) + "'"
 	}
 
 	return strconv.FormatInt(i.Value, 10)
diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index d0d04e4..c18e7e3 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -243,7 +243,7 @@ func (l *Lexer) parseNumericToken() token.Token {
 }
 
 func (l *Lexer) readString() string {
-	s := ""
+	s := []byte{}
 	l.readChar()
 	for l.ch != '"' && l.ch != 0 {
 		if l.ch == '\\' {
@@ -251,26 +251,26 @@ func (l *Lexer) readString() string {
 			if l.peekChar() == 'n' {
 				l.readChar()
 				l.readChar()
-				s += string('\n')
+				s = append(s, '\n')
 				continue
 			}
 
 			// Read it as a literal
 			l.readChar()
-			s += string(l.ch)
+			s = append(s, l.ch)
 			l.readChar()
 			continue
 		}
 
-		s += string(l.ch)
+		s = append(s, l.ch)
 		l.readChar()
 	}
 
-	return s
+	return string(s)
 }
 
 func (l *Lexer) newToken(tokenType token.TypeToken, ch byte) token.Token {
-	return token.Token{Type: tokenType, Literal: string(ch), Line: l.line, Position: l.column - 1, OverallPosition: l.position}
+	return token.Token{Type: tokenType, Literal: string([]byte{ch}), Line: l.line, Position: l.column - 1, OverallPosition: l.position}
 }
 
 func isDigit(ch byte) bool {
diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index e8c3e05..a95c355 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -1242,7 +1242,7 @@ func (p *Parser) parseCharLiteral() ast.Expression {
 			Token: c,
 			Type:  ctypes.I8,
 		},
-		Value: int64(c.Literal[0]),
+		Value: int64(int8(c.Literal[0])),
 	}
 }
 
-- 
2.43.0


From 7c5685083246a6b70748d6c585bcb29b8bed4198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:09 +0000
Subject: [PATCH 40/90] fix: lines of strings with line breaks are counted

---
 internals/lexer/lexer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index c18e7e3..6e4bf29 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -157,9 +157,9 @@ func (l *Lexer) NextToken() token.Token {
 		tok = l.newToken(token.RBRACKET, l.ch)
 	case '"':
 		tok.Type = token.STRING
-		tok.Literal = l.readString()
 		tok.Line = l.line
-		tok.Position = l.column - uint32(len(tok.Literal))
+		tok.Position = l.column + 1
+		tok.Literal = l.readString()
 		tok.OverallPosition = l.position
 	case '=':
 		tok = l.peekerForTwoChars('=', l.newToken(token.ASSIGN, '='), token.EQ)
@@ -262,6 +262,10 @@ func (l *Lexer) readString() string {
 			continue
 		}
 
+		if l.ch == '\n' {
+			l.line++
+			l.column = 1
+		}
 		s = append(s, l.ch)
 		l.readChar()
 	}
-- 
2.43.0


From 0cbb442567d150affd300d1c0aa77373ffa53ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:17 +0000
Subject: [PATCH 41/90] fix: narrow arguments follow the calling convention of
 C

---
 internals/compiler/compiler.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 6c30a7e..6ca3642 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1134,14 +1134,43 @@ func (c *Compiler) compileBuiltinFunctionCall(ast *ast.BuiltinCall) value.Value
 	panic("")
 }
 
+// passArgument applies the conventions of C to an argument: integers that are narrower than an int
+// are extended, and the variable part of the arguments of a function doesn't have narrow types.
+func (c *Compiler) passArgument(function value.Value, i int, argument value.Value, argumentType ctypes.Type) value.Value {
+	functionType := function.Type().(*types.PointerType).ElemType.(*types.FuncType)
+	isVariableArgument := functionType.Variadic && i >= len(functionType.Params)
+	switch t := argument.Type().(type) {
+	case *types.IntType:
+		if t.BitSize >= 32 {
+			return argument
+		}
+
+		if isVariableArgument {
+			return c.handleIntegerCast(types.I32, argument, argumentType)
+		}
+
+		if ctypes.IsUnsignedInteger(argumentType) || argumentType == ctypes.I1 {
+			return ir.NewArg(argument, enum.ParamAttrZeroExt)
+		}
+
+		return ir.NewArg(argument, enum.ParamAttrSignExt)
+	case *types.FloatType:
+		if isVariableArgument && t.Kind == types.FloatKindFloat {
+			return c.block().NewFPExt(argument, types.Double)
+		}
+	}
+
+	return argument
+}
+
 func (c *Compiler) compileFunctionCall(ast *ast.Call) value.Value {
 	left := c.compileExpression(ast.Left)
 	funk := c.loadIfPointer(left)
 	arguments := make([]value.Value, 0, len(ast.Parameters))
-	for _, argument := range ast.Parameters {
+	for i, argument := range ast.Parameters {
 		compiledValue := c.compileExpression(argument)
 		loadedValue := c.loadIfPointer(compiledValue)
-		arguments = append(arguments, loadedValue)
+		arguments = append(arguments, c.passArgument(funk, i, loadedValue, argument.GetType()))
 	}
 	thing := c.block().NewCall(funk, arguments...)
 	c.doNotLoadIntoMemory = true
-- 
2.43.0


From d4f2581e531fd9ed23ad31a35be072a40db27c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 42/90] fix: functions with variable arguments as values, and
 missing fixed arguments

---
 internals/compiler/compiler_types.go | 5 +++--
 internals/semantic/semantic.go       | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/internals/compiler/compiler_types.go b/internals/compiler/compiler_types.go
index 04a66d0..6cf5b5a 100644
--- a/internals/compiler/compiler_types.go
+++ b/internals/compiler/compiler_types.go
@@ -182,8 +182,9 @@ func (c *Compiler) ToLLVMType(t ctypes.Type) types.Type {
 			for _, param := range el.Parameters {
 				parameters = append(parameters, c.ToLLVMType(param))
 			}
-			function := types.NewPointer(types.NewFunc(returnType, parameters...))
-			return function
+			functionType := types.NewFunc(returnType, parameters...)
+			functionType.Variadic = el.InfiniteParameters
+			return types.NewPointer(functionType)
 		}
 	}
 
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index b89ec83..88d293f 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1022,7 +1022,8 @@ func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 		}
 	}
 
-	if len(call.Parameters) != len(funcType.Parameters) && !funcType.InfiniteParameters {
+	if len(call.Parameters) < len(funcType.Parameters) ||
+		(len(call.Parameters) > len(funcType.Parameters) && !funcType.InfiniteParameters) {
 
 		s.errorWithStatement(fmt.Sprintf("mismatch number of parameters, expected %d, got %d", len(funcType.Parameters), len(call.Parameters)), call.Token)
 	}
-- 
2.43.0


From 83d5f43689558eb99fb73de5211a33b0ab0fcba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:44 +0000
Subject: [PATCH 43/90] fix: narrow results follow the calling convention of C

---
 internals/compiler/compiler.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 6ca3642..1563de0 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -545,6 +545,21 @@ func (c *Compiler) compileReturn(ret *ast.ReturnStatement) {
 	c.block().NewRet(toReturnLoaded)
 }
 
+// extendReturn makes the function extend its narrow integer result like the functions of C do
+func extendReturn(function *ir.Func, returnType ctypes.Type) {
+	integer, isInteger := function.Sig.RetType.(*types.IntType)
+	if !isInteger || integer.BitSize >= 32 {
+		return
+	}
+
+	if ctypes.IsUnsignedInteger(returnType) || returnType == ctypes.I1 {
+		function.ReturnAttrs = append(function.ReturnAttrs, enum.ReturnAttrZeroExt)
+		return
+	}
+
+	function.ReturnAttrs = append(function.ReturnAttrs, enum.ReturnAttrSignExt)
+}
+
 // defines function type without compiling its body
 func (c *Compiler) compileFunctionType(name string, funk ast.Function) *ir.Func {
 	if fn, ok := c.globalVariables[name]; ok {
@@ -567,10 +582,12 @@ func (c *Compiler) compileFunctionType(name string, funk ast.Function) *ir.Func
 	toReturnType := c.ToLLVMType(functionType.Return)
 	// Declare llvmFunction
 	llvmFunction := c.m.NewFunc(functionType.Name, toReturnType, params...)
+	extendReturn(llvmFunction, functionType.Return)
 
 	if functionType.RedefineWithOriginalName {
 		llvmFunctionExtern := c.m.NewFunc(functionType.ExternalName, c.ToLLVMType(functionType.Return), params...)
 		llvmFunctionExtern.CallingConv = enum.CallingConvC
+		extendReturn(llvmFunctionExtern, functionType.Return)
 		c.globalVariables[functionType.ExternalName] = &Value{
 			Value: llvmFunctionExtern,
 			Type:  functionType,
-- 
2.43.0


From 0c8ee9e45acdc89bb07773a21e3f116b36ef4d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 44/90] fix: modules are told apart by the types they are
 imported with, and searched in order

---
 internals/semantic/semantic.go | 44 +++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 88d293f..9350b94 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -53,7 +53,9 @@ type Semantic struct {
 	// ```
 	// So we need to 'duplicate' definitions when importing semantic modules. One for module identifier accessing modules
 	// and method calls that reference other places
-	modules              map[string]*Semantic
+	modules map[string]*Semantic
+	// The imported modules in order, because the order of a map isn't the same every time
+	importedModules      []*Semantic
 	Root                 *ast.Program
 	additionalExpression ast.Expression
 
@@ -1197,7 +1199,7 @@ func (s *Semantic) analyzeModuleAccess(module *Semantic, binaryOp *ast.BinaryOpe
 }
 
 func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) *ctypes.Function {
-	for _, semantic := range s.modules {
+	for _, semantic := range s.importedModules {
 		v := semantic.variables.Get(semantic.TranslateName(accessName))
 		if v == nil {
 			continue
@@ -1343,10 +1345,11 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 	hashType := strings.Builder{}
 	for _, t := range types {
 		hashType.WriteByte(',')
-		hashType.WriteString(t.String())
+		hashType.WriteString(typeIdentity(t))
 	}
 	endHash := currentPathPlusImport + hashType.String()
 	if existingSemantic, ok := paths[endHash]; ok {
+		s.importedModules = append(s.importedModules, existingSemantic)
 		s.modules[importStatement.Name] = existingSemantic
 		// We need this for methods that are referenced as
 		// <struct_instance>.<method_that_contains_as_first_param_the_instance>(...)
@@ -1382,12 +1385,47 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 	}
 
 	paths[endHash] = internalSemantic
+	s.importedModules = append(s.importedModules, internalSemantic)
 	// We need this for methods that are referenced as
 	// <struct_instance>.<method_that_contains_as_first_param_the_instance>(...)
 	s.modules[internalSemantic.Root.ID] = internalSemantic
 	s.modules[importStatement.Name] = internalSemantic
 }
 
+// typeIdentity is like t.String(), but it's different for types of different modules that share their name
+func typeIdentity(t ctypes.Type) string {
+	switch t := t.(type) {
+	case *ctypes.Struct:
+		return t.Name
+	case *ctypes.Union:
+		return t.Name
+	case *ctypes.Anonymous:
+		return t.Name
+	case *ctypes.Pointer:
+		return "*" + typeIdentity(t.Inner)
+	case *ctypes.Array:
+		return fmt.Sprintf("[%d]%s", t.Length, typeIdentity(t.Inner))
+	case *ctypes.TypeList:
+		return "(" + typeIdentities(t.Types) + ")"
+	case *ctypes.Function:
+		identity := "func(" + typeIdentities(t.Parameters) + ")"
+		if t.Return != nil {
+			identity += typeIdentity(t.Return)
+		}
+		return identity
+	}
+
+	return t.String()
+}
+
+func typeIdentities(types []ctypes.Type) string {
+	identities := make([]string, 0, len(types))
+	for _, t := range types {
+		identities = append(identities, typeIdentity(t))
+	}
+	return strings.Join(identities, ",")
+}
+
 func (s *Semantic) analyzeExpressionBlock(blockExpression *ast.ExpressionBlock) ctypes.Type {
 	t := s.UnwrapAnonymous(blockExpression.Type)
 	tmpReturns := s.returns
-- 
2.43.0


From 9f8e1d6b72b9055eaf1b946833c6a2662a6ed058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:22 +0000
Subject: [PATCH 45/90] fix: files that import themselves, and functions that
 use modules imported after them

---
 internals/compiler/compiler.go       |  2 ++
 internals/compiler/compiler_steps.go | 13 +++++++++++++
 internals/semantic/semantic.go       | 14 ++++++++++++++
 3 files changed, 29 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 1563de0..0c0ede9 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -426,6 +426,8 @@ func (c *Compiler) Compile(tree ast.Node) {
 
 	case *ast.Program:
 		{
+			// Functions can use modules that are imported after them
+			c.compileImports(t.Statements)
 			for _, statement := range t.Statements {
 				c.Compile(statement)
 			}
diff --git a/internals/compiler/compiler_steps.go b/internals/compiler/compiler_steps.go
index 14b5283..9db8a73 100644
--- a/internals/compiler/compiler_steps.go
+++ b/internals/compiler/compiler_steps.go
@@ -34,3 +34,16 @@ func (c *Compiler) compileFunctionTypes(statements []ast.Statement) {
 		}
 	}
 }
+
+// compileImports compiles the imported modules, before the functions that use them
+func (c *Compiler) compileImports(statements []ast.Statement) {
+	for _, statement := range statements {
+		switch t := statement.(type) {
+		case *ast.ImportStatement:
+			c.Compile(t)
+
+		case *ast.MacroBlock:
+			c.compileImports(t.Statements)
+		}
+	}
+}
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 9350b94..7b46c64 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -65,6 +65,9 @@ type Semantic struct {
 
 var paths map[string]*Semantic = map[string]*Semantic{}
 
+// Files whose imports are being analyzed, to find the ones that import themselves
+var importsInProgress = map[string]bool{}
+
 func (s *Semantic) SizeOf() int64 {
 	return 0
 }
@@ -76,6 +79,7 @@ func (s *Semantic) Alignment() int64 { return 0 }
 func (s *Semantic) String() string { return "MODULE" }
 
 func ResetPaths() {
+	importsInProgress = map[string]bool{}
 	paths = map[string]*Semantic{}
 }
 
@@ -206,6 +210,9 @@ func (s *Semantic) analyzeStatement(statement ast.Statement) {
 	case *ast.ImportStatement:
 		// moved to step of structs
 		// s.analyzeImport(statementType)
+		if s.modules[statementType.Name] == nil {
+			s.errorWithStatement("modules can only be imported at the top level of a file", statementType.Token)
+		}
 		return
 	case *ast.DeclarationStatement:
 		s.analyzeDeclarationStatement(statementType)
@@ -1356,6 +1363,13 @@ func (s *Semantic) analyzeImport(importStatement *ast.ImportStatement) {
 		s.modules[existingSemantic.Root.ID] = existingSemantic
 		return
 	}
+	if importsInProgress[currentPathPlusImport] {
+		s.errorWithStatement("the file "+importStatement.Path.String()+" imports itself through its own imports", importStatement.Token)
+		return
+	}
+	importsInProgress[currentPathPlusImport] = true
+	defer delete(importsInProgress, currentPathPlusImport)
+
 	text, err := os.ReadFile(currentPathPlusImport)
 	if err != nil {
 		s.errorWithStatement(fmt.Sprintf("error importing file with path %s: %s", importStatement.Path, err.Error()), importStatement.Token)
-- 
2.43.0


From 15a8a22454d8da164dc684b9c0d68683d4107429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:58 +0000
Subject: [PATCH 46/90] fix: variables and parameters hide modules of the same
 name

---
 internals/semantic/semantic.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 7b46c64..e0901d9 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1058,11 +1058,6 @@ func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 }
 
 func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
-	if module, ok := s.modules[identifier.Name]; ok {
-		identifier.Type = module
-		return module
-	}
-
 	if identifierType := s.variables.Get(identifier.Name); identifierType != nil {
 		identifier.Type = identifierType.Type
 
@@ -1086,6 +1081,12 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 		return identifierType.Type
 	}
 
+	// Variables and parameters hide the modules that are called like them
+	if module, ok := s.modules[identifier.Name]; ok {
+		identifier.Type = module
+		return module
+	}
+
 	s.errorWithStatement("undefined variable "+ast.RetrieveID(identifier.Name), identifier.Token)
 	return ctypes.TODO()
 }
-- 
2.43.0


From 669de369475ced8deb4c77663bb7a798f334fe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:18 +0000
Subject: [PATCH 47/90] fix: pop of an empty array stops the program

---
 std/array.cd | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/std/array.cd b/std/array.cd
index e3d0031..ba6dee9 100644
--- a/std/array.cd
+++ b/std/array.cd
@@ -1,5 +1,6 @@
 type T
 
+extern func abort() void;
 
 struct Array {
     ptr *T
@@ -27,7 +28,7 @@ func push(arr *Array, element T) {
 }
 
 func _panic() {
-    *(0 as *i8);
+    abort();
 }
 
 func pop(arr *Array) T {
-- 
2.43.0


From 47fb1b7371e74eed78ce20bf78e64db815a436d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:09 +0000
Subject: [PATCH 48/90] fix: strings without end, zero bytes and messages at
 the end of the file

---
 internals/lexer/lexer.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 6e4bf29..3bf8904 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -44,7 +44,7 @@ func (l *Lexer) skipWhiteSpace() {
 }
 
 func (l *Lexer) skipUntilJL() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && !l.isEOF() {
 		l.readChar()
 	}
 	l.readChar()
@@ -53,11 +53,13 @@ func (l *Lexer) skipUntilJL() {
 }
 
 func (l *Lexer) RetrieveLine(t token.Token) string {
-	currentColumn := t.OverallPosition - 1
-	if t.Type == token.EOF {
+	if t.Type == token.EOF || t.OverallPosition >= len(l.input) {
 		t.OverallPosition = len(l.input) - 1
-		currentColumn = len(l.input) - 2
 	}
+	if t.OverallPosition < 0 {
+		return ""
+	}
+	currentColumn := t.OverallPosition - 1
 	for currentColumn >= 0 && l.input[currentColumn] != '\n' && l.input[currentColumn] != '\t' {
 		currentColumn--
 	}
@@ -103,6 +105,10 @@ func (l *Lexer) readCharLiteral() token.Token {
 		literal = c
 	} else {
 		literal = l.ch
+		if literal == '\n' {
+			l.line++
+			l.column = 1
+		}
 		l.readChar()
 	}
 
@@ -161,6 +167,10 @@ func (l *Lexer) NextToken() token.Token {
 		tok.Position = l.column + 1
 		tok.Literal = l.readString()
 		tok.OverallPosition = l.position
+		if l.isEOF() {
+			// The string never ends
+			tok.Type = token.ILLEGAL
+		}
 	case '=':
 		tok = l.peekerForTwoChars('=', l.newToken(token.ASSIGN, '='), token.EQ)
 	case '!':
@@ -206,6 +216,10 @@ func (l *Lexer) NextToken() token.Token {
 	case '}':
 		tok = l.newToken(token.RBRACE, l.ch)
 	case 0:
+		if !l.isEOF() {
+			tok = l.newToken(token.ILLEGAL, l.ch)
+			break
+		}
 		tok.Line = l.line
 		tok.Position = l.column
 		tok.OverallPosition = l.position
@@ -245,7 +259,7 @@ func (l *Lexer) parseNumericToken() token.Token {
 func (l *Lexer) readString() string {
 	s := []byte{}
 	l.readChar()
-	for l.ch != '"' && l.ch != 0 {
+	for l.ch != '"' && !l.isEOF() {
 		if l.ch == '\\' {
 			// It's a jumpline
 			if l.peekChar() == 'n' {
@@ -352,6 +366,11 @@ func (l *Lexer) readChar() {
 	l.ch = l.input[l.readPosition]
 }
 
+// isEOF tells the end of the input apart from a zero byte in it
+func (l *Lexer) isEOF() bool {
+	return l.position >= len(l.input)
+}
+
 func (l *Lexer) peekChar() byte {
 	if l.readPosition >= len(l.input) {
 		return 0
-- 
2.43.0


From 4de80082a5db6f65d5fc30f36e6626e8aaa2892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:17 +0000
Subject: [PATCH 49/90] fix: the parser reports missing types and names instead
 of panicking

---
 internals/parser/parser.go            | 26 ++++++++++++++++++--------
 internals/parser/parser_assignment.go |  6 ++++++
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index a95c355..e9f32e2 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -291,11 +291,7 @@ func (p *Parser) parseImport() ast.Statement {
 	for p.peekToken.Type != token.STRING && p.currentToken.Type != token.EOF {
 		p.expect(token.COMMA)
 		p.nextToken()
-		t := p.parseType()
-		if t == nil {
-			p.addErrorMessage("couldn't parse type")
-		}
-		types = append(types, t)
+		types = append(types, p.parseType())
 	}
 	p.expect(token.COMMA)
 	p.nextToken()
@@ -372,7 +368,7 @@ func (p *Parser) parseAnonymousFunction() ast.Expression {
 	p.expect(token.RPAREN)
 	p.nextToken()
 	var returnType ctypes.Type
-	if p.currentToken.Type != token.LBRACE {
+	if p.isStartOfType() {
 		returnType = p.parseTypes()
 	}
 
@@ -412,7 +408,7 @@ func (p *Parser) parseFunctionDeclaration() ast.Statement {
 	p.expect(token.RPAREN)
 	p.nextToken()
 	var returnType ctypes.Type
-	if p.currentToken.Type != token.LBRACE {
+	if p.isStartOfType() {
 		returnType = p.parseTypes()
 	}
 
@@ -532,10 +528,12 @@ func (p *Parser) parseIdentifierStatement() ast.Statement {
 }
 
 func (p *Parser) parseMultipleDeclarations(isConstant bool) ast.Statement {
+	p.expect(token.IDENT)
 	firstLiteral := p.nextToken()
 	names := []string{ast.CreateIdentifier(firstLiteral.Literal, p.ID)}
 	for p.currentToken.Type == token.COMMA {
 		p.nextToken()
+		p.expect(token.IDENT)
 		names = append(names, ast.CreateIdentifier(p.nextToken().Literal, p.ID))
 	}
 	p.expect(token.COLON)
@@ -567,6 +565,7 @@ func (p *Parser) parseDeclaration() ast.Statement {
 		return p.parseMultipleDeclarations(isConstant)
 	}
 
+	p.expect(token.IDENT)
 	id := p.currentToken
 	// pass id
 	p.nextToken()
@@ -717,7 +716,18 @@ func (p *Parser) parseType() ctypes.Type {
 		return &ctypes.Array{Length: integer, Inner: p.parseType()}
 	}
 
-	return nil
+	p.addErrorMessage("expected a type, received a '" + p.currentToken.Literal + "'")
+	return ctypes.TODO()
+}
+
+// isStartOfType tells if a type may start with the current token
+func (p *Parser) isStartOfType() bool {
+	switch p.currentToken.Type {
+	case token.LPAREN, token.ASTERISK, token.IDENT, token.FUNCTION, token.LBRACKET:
+		return true
+	}
+
+	return false
 }
 
 func (p *Parser) parsePrefix() ast.Expression {
diff --git a/internals/parser/parser_assignment.go b/internals/parser/parser_assignment.go
index 9e0de25..03ec010 100644
--- a/internals/parser/parser_assignment.go
+++ b/internals/parser/parser_assignment.go
@@ -45,6 +45,12 @@ func (p *Parser) parsePossibleAssignment() ast.Statement {
 	}
 
 	if commaExpr, ok := expr.(*ast.CommaExpressions); ok && p.currentToken.Type == token.COLON {
+		for _, expression := range commaExpr.Expressions {
+			if _, isIdentifier := expression.(*ast.Identifier); !isIdentifier {
+				p.addErrorMessage("only names can be declared, got " + expression.String())
+				return &ast.ExpressionStatement{Token: p.currentToken, Expression: expr}
+			}
+		}
 		declToken := p.nextToken()
 		var t ctypes.Type = ctypes.TODO()
 		if token.ASSIGN != p.currentToken.Type {
-- 
2.43.0


From fdadc6a43951f526e87e7095728f74a93d9baed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:31 +0000
Subject: [PATCH 50/90] fix: global variables that contain functions can be
 assigned

---
 internals/compiler/compiler.go          | 17 ++++++++++-------
 internals/compiler/compiler_constant.go |  2 +-
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 0c0ede9..c2f7440 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -493,7 +493,7 @@ func (c *Compiler) compileExternFunc(externFunc *ast.ExternStatement) {
 	}
 
 	if f, ok := c.globalBuiltinDefinitions[funcType.ExternalName]; ok {
-		funk := &Value{Value: f, Type: funcType}
+		funk := &Value{Value: f, Type: funcType, Constant: true}
 		c.globalVariables[funcType.Name] = funk
 		return
 	}
@@ -511,7 +511,7 @@ func (c *Compiler) compileExternFunc(externFunc *ast.ExternStatement) {
 		f.Sig.Variadic = true
 	}
 
-	funk := &Value{Value: f, Type: funcType}
+	funk := &Value{Value: f, Type: funcType, Constant: true}
 	// Define the variable to local module facing references
 	c.globalVariables[funcType.Name] = funk
 	// Define the variable to C ABI facing code so the rest of modules
@@ -591,15 +591,17 @@ func (c *Compiler) compileFunctionType(name string, funk ast.Function) *ir.Func
 		llvmFunctionExtern.CallingConv = enum.CallingConvC
 		extendReturn(llvmFunctionExtern, functionType.Return)
 		c.globalVariables[functionType.ExternalName] = &Value{
-			Value: llvmFunctionExtern,
-			Type:  functionType,
+			Value:    llvmFunctionExtern,
+			Type:     functionType,
+			Constant: true,
 		}
 	}
 
 	// Create function
 	c.globalVariables[name] = &Value{
-		Value: llvmFunction,
-		Type:  functionType,
+		Value:    llvmFunction,
+		Type:     functionType,
+		Constant: true,
 	}
 
 	return llvmFunction
@@ -1106,7 +1108,8 @@ func (c *Compiler) retrieveVariable(name string) value.Value {
 	}
 
 	if fn, ok := c.globalVariables[name]; ok {
-		if !ctypes.IsFunction(fn.Type) {
+		// A variable that contains a function isn't the function
+		if !ctypes.IsFunction(fn.Type) || !fn.Constant {
 			if existing, exists := c.globalVariables[name+".global"]; exists {
 				return existing.Value
 			}
diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index 2e81143..0385a22 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -94,7 +94,7 @@ func (c *Compiler) compileConstantIdentifier(expr *ast.Identifier) constant.Cons
 		if value, isConstant := local.(constant.Constant); isConstant && !types.IsPointer(value.Type()) {
 			return value
 		}
-	} else if global, ok := c.globalVariables[expr.Name]; ok && (global.Constant || ctypes.IsFunction(global.Type)) {
+	} else if global, ok := c.globalVariables[expr.Name]; ok && global.Constant {
 		if value, isConstant := global.Value.(constant.Constant); isConstant {
 			return value
 		}
-- 
2.43.0


From 9e87557b377981c160d4ce669ec584b3b1349c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:30 +0000
Subject: [PATCH 51/90] fix: the pointer of an index access is read before the
 index; elements of arrays that functions return

---
 internals/compiler/compiler.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index c2f7440..15048f2 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1240,20 +1240,35 @@ func (c *Compiler) compileAssignment(assignment *ast.AssignmentStatement) {
 
 func (c *Compiler) compileIndexAccess(access *ast.IndexAccess) value.Value {
 	leftArray := c.compileExpression(access.Left)
-	// keep do not load into memory before compiling expression
-	doNotLoadLeftArray := c.doNotLoadIntoMemory
+	if types.IsArray(leftArray.Type()) {
+		// It's not in memory, a function returned it for example
+		array := c.newAlloca(leftArray.Type())
+		c.block().NewStore(leftArray, array)
+		leftArray = array
+	}
+
+	// The pointer is read before the index, which might change it
+	isArray := types.IsPointer(leftArray.Type()) && types.IsArray(leftArray.Type().(*types.PointerType).ElemType)
+	if _, isPointer := access.Left.GetType().(*ctypes.Pointer); isPointer && c.doNotLoadIntoMemory {
+		// a pointer to arrays that is not in memory
+		isArray = false
+	}
+	if !isArray {
+		leftArray = c.loadIfPointer(leftArray)
+	}
+
+	c.doNotLoadIntoMemory = false
+	c.doNotAllocate = false
 	index := c.extendUnsignedOffset(c.loadIfPointer(c.compileExpression(access.Access)), access.Access.GetType())
 
 	// If it's an array do not load into memory, just calculate offset
-	if types.IsPointer(leftArray.Type()) && types.IsArray(leftArray.Type().(*types.PointerType).ElemType) {
+	if isArray {
 		// zero as first offset because we are calculating first pointer, then index
 		element := c.block().NewGetElementPtr(leftArray.Type().(*types.PointerType).ElemType, leftArray, zero, index)
 		element.InBounds = true
 		return element
 	}
 
-	c.doNotLoadIntoMemory = doNotLoadLeftArray
-	leftArray = c.loadIfPointer(leftArray)
 	return c.calculatePointerOffset(leftArray, index)
 }
 
-- 
2.43.0


From 3c026f925fd390ed06df574fed68cd85842059f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:22 +0000
Subject: [PATCH 52/90] fix: increments of values that are not stored, return
 outside of functions, shifts of floats by floats

---
 internals/semantic/semantic.go        | 22 ++++++++++++++++------
 internals/semantic/semantic_errors.go |  7 +++++--
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index e0901d9..aebc20e 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -490,6 +490,7 @@ func (s *Semantic) analyzeIfStatement(ifStatement *ast.IfStatement) {
 }
 
 func (s *Semantic) analyzeReturnStatement(returnStatement *ast.ReturnStatement) {
+	s.expectStatementInsideFunction(returnStatement.Token)
 	theType := s.UnwrapAnonymous(s.analyzeExpression(returnStatement.Expression))
 	if !s.areTypesEqual(theType, s.currentExpectedReturnType) {
 		s.typeMismatchError(returnStatement.String(), returnStatement.Expression, returnStatement.Token, s.currentExpectedReturnType, theType)
@@ -1091,6 +1092,19 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 	return ctypes.TODO()
 }
 
+// isPlace tells whether the expression is something that can be modified
+func isPlace(expression ast.Expression) bool {
+	switch e := expression.(type) {
+	case *ast.Identifier, *ast.IndexAccess:
+		return true
+	case *ast.BinaryOperation:
+		return e.Operation == ops.Dot
+	case *ast.PrefixOperation:
+		return e.Operation == ops.Multiply || e.Operation == ops.AddOne || e.Operation == ops.SubtractOne
+	}
+	return false
+}
+
 func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation) ctypes.Type {
 	expectNonConstantExpression := s.expectNonConstantExpression
 	if prefixOperation.Operation == ops.AddOne || prefixOperation.Operation == ops.SubtractOne {
@@ -1122,12 +1136,8 @@ func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation)
 			return t
 		}
 
-		if _, isInteger := prefixOperation.Right.(*ast.Integer); !isInteger {
-			if _, isFloat := prefixOperation.Right.(*ast.Float); isFloat {
-				s.errorWithStatement("you can't add a number literal", prefixOperation.Token)
-			}
-		} else {
-			s.errorWithStatement("you can't add a number literal", prefixOperation.Token)
+		if !isPlace(prefixOperation.Right) {
+			s.errorWithStatement("you can't add to a value that is not stored anywhere", prefixOperation.Token)
 		}
 
 		return t
diff --git a/internals/semantic/semantic_errors.go b/internals/semantic/semantic_errors.go
index 9b3b86d..9080bc4 100644
--- a/internals/semantic/semantic_errors.go
+++ b/internals/semantic/semantic_errors.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/gabivlj/candice/internals/ast"
 	"github.com/gabivlj/candice/internals/ctypes"
+	"github.com/gabivlj/candice/internals/node"
 	"github.com/gabivlj/candice/internals/ops"
 	"github.com/gabivlj/candice/internals/token"
 	"github.com/gabivlj/candice/pkg/format"
@@ -175,24 +176,26 @@ func (s *Semantic) typeMismatchBlameArithmeticExpressionError(node string, binar
 }
 
 // Type mismatch for every binary operation
-func (s *Semantic) typeMismatchBlameBinaryExpressionError(node string, binary *ast.BinaryOperation, tok token.Token, expected ctypes.Type, got ctypes.Type, blameRight bool) {
+func (s *Semantic) typeMismatchBlameBinaryExpressionError(expression string, binary *ast.BinaryOperation, tok token.Token, expected ctypes.Type, got ctypes.Type, blameRight bool) {
 	s.checkDereferenceOnArithmeticErrors(binary.Left.GetType(), binary.Right.GetType(), binary, true)
 	wrongLine := s.getCurrentStatementLineFormatted()
 	// Decide which side of the operation do you want to cast
 	if blameRight {
 		binary.Right = &ast.BuiltinCall{
+			Node:           &node.Node{Token: binary.Right.GetToken(), Type: got},
 			Name:           "cast",
 			TypeParameters: []ctypes.Type{expected},
 			Parameters:     []ast.Expression{binary.Right},
 		}
 	} else {
 		binary.Left = &ast.BuiltinCall{
+			Node:           &node.Node{Token: binary.Left.GetToken(), Type: got},
 			Name:           "cast",
 			TypeParameters: []ctypes.Type{got},
 			Parameters:     []ast.Expression{binary.Left},
 		}
 	}
-	message := fmt.Sprintf("\n%s\n\n%s \n%s mismatched types, expected %s, got %s\n", wrongLine, node, strings.Repeat("^", len(node)), expected.String(), got.String())
+	message := fmt.Sprintf("\n%s\n\n%s \n%s mismatched types, expected %s, got %s\n", wrongLine, expression, strings.Repeat("^", len(expression)), expected.String(), got.String())
 	if ctypes.IsNumeric(expected) && ctypes.IsNumeric(got) {
 		message += fmt.Sprintf("Try doing:\n- [%d:%d] %s\n", binary.GetToken().Line, binary.GetToken().Position, binary.String())
 	}
-- 
2.43.0


From cc55288f7447bfa64b2807eac22c395946c97e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:48 +0000
Subject: [PATCH 53/90] fix: void isn't the type of parameters, fields,
 elements and other values

---
 internals/compiler/compiler.go         |  6 ++++
 internals/semantic/semantic.go         | 13 ++++++++-
 internals/semantic/semantic_builtin.go |  2 ++
 internals/semantic/semantic_type.go    | 38 ++++++++++++++++++++++++++
 4 files changed, 58 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 15048f2..50620e6 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -534,6 +534,12 @@ func (c *Compiler) compileReturn(ret *ast.ReturnStatement) {
 	}
 
 	toReturn := c.compileExpression(ret.Expression)
+	if types.IsVoid(toReturn.Type()) {
+		// the function that it calls doesn't return anything either
+		c.compileReturn(&ast.ReturnStatement{Token: ret.Token, Type: ret.Type})
+		return
+	}
+
 	toReturnLoaded := c.loadIfPointer(toReturn)
 	if c.currentValueToReturnBlockExpression != nil {
 		c.block().NewStore(
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index aebc20e..17695c0 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -288,6 +288,7 @@ func (s *Semantic) analyzeExternStatement(extern *ast.ExternStatement) {
 	if !ok {
 		s.typeMismatchError(extern.String(), nil, extern.Token, &ctypes.Function{Name: "function"}, extern.Type)
 	}
+	s.expectValueType(funk, extern.Token)
 	s.variables.Add(funk.Name, s.newType(funk))
 }
 
@@ -327,7 +328,7 @@ func (s *Semantic) analyzeForStatement(forStatement *ast.ForStatement) {
 
 	condition := s.analyzeExpression(forStatement.Condition)
 
-	if !ctypes.IsNumeric(condition) && condition != ctypes.VoidType {
+	if !ctypes.IsNumeric(condition) {
 		s.typeMismatchError(forStatement.Condition.String(), forStatement.Condition, forStatement.Token, ctypes.I1, condition)
 	}
 
@@ -372,6 +373,10 @@ func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Fu
 	temporaryReturns := s.returns
 	temporaryExpectedReturnType := s.currentExpectedReturnType
 	fun.Return = s.UnwrapAnonymous(fun.Return)
+	for _, parameter := range fun.Parameters {
+		s.expectValueType(parameter, functionToken)
+	}
+	s.expectReturnType(fun.Return, functionToken)
 	s.currentExpectedReturnType = fun.Return
 
 	if block != nil {
@@ -521,6 +526,7 @@ func (s *Semantic) analyzeStructStatement(statementType *ast.StructStatement) {
 				statementType.Token,
 			)
 		}
+		s.expectValueType(t, statementType.Token)
 		statementType.Type.Fields[i] = t
 	}
 }
@@ -548,6 +554,7 @@ func (s *Semantic) analyzeUnionStatement(statementType *ast.UnionStatement) {
 				statementType.Token,
 			)
 		}
+		s.expectValueType(t, statementType.Token)
 		statementType.Type.Fields[i] = t
 	}
 }
@@ -937,6 +944,7 @@ func (s *Semantic) analyzeCommaExpressions(commaExpressions *ast.CommaExpression
 	for _, expression := range commaExpressions.Expressions {
 		t := s.analyzeExpression(expression)
 		t = s.UnwrapAnonymous(s.replaceAnonymous(t))
+		s.expectValueType(t, commaExpressions.Token)
 		commaExpressionsType.Types = append(commaExpressionsType.Types, t)
 	}
 
@@ -986,6 +994,7 @@ func (s *Semantic) analyzeStructLiteral(structLiteral *ast.StructLiteral) ctypes
 func (s *Semantic) analyzeArrayLiteral(arrayLiteral *ast.ArrayLiteral) ctypes.Type {
 	arrayType := arrayLiteral.Type.(*ctypes.Array)
 	currType := arrayType.Inner
+	s.expectValueType(arrayType, arrayLiteral.Token)
 
 	if int(arrayType.Length) < len(arrayLiteral.Values) {
 		s.errorWithStatement("expected an array of length "+strconv.FormatInt(arrayType.Length, 10)+" or less", arrayLiteral.Token)
@@ -1153,6 +1162,7 @@ func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation)
 
 	if prefixOperation.Operation == ops.BinaryAND {
 		s.throwInvalidOperationForConstant("you can't ref on constant expressions", prefixOperation)
+		s.expectValueType(t, prefixOperation.Token)
 		prefixOperation.Type = &ctypes.Pointer{Inner: t}
 		return prefixOperation.Type
 	}
@@ -1453,6 +1463,7 @@ func typeIdentities(types []ctypes.Type) string {
 
 func (s *Semantic) analyzeExpressionBlock(blockExpression *ast.ExpressionBlock) ctypes.Type {
 	t := s.UnwrapAnonymous(blockExpression.Type)
+	s.expectValueType(t, blockExpression.Token)
 	tmpReturns := s.returns
 	tmpExpectedReturnType := s.currentExpectedReturnType
 	defer func() {
diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 451be2f..f470c1a 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -24,6 +24,7 @@ func (s *Semantic) analyzeCast(castCall *ast.BuiltinCall) ctypes.Type {
 	currentType := s.UnwrapAnonymous(s.analyzeExpression(castCall.Parameters[0]))
 	toType := s.UnwrapAnonymous(s.replaceAnonymous(castCall.TypeParameters[0]))
 	castCall.TypeParameters[0] = toType
+	s.expectReturnType(toType, castCall.Token)
 	// An array can only become a pointer to its elements
 	if (ctypes.IsPointer(currentType) || ctypes.IsNumeric(currentType)) && (ctypes.IsPointer(toType) || ctypes.IsNumeric(toType)) ||
 		ctypes.IsArray(currentType) && ctypes.IsPointer(toType) {
@@ -47,6 +48,7 @@ func (s *Semantic) analyzeAlloc(allocCall *ast.BuiltinCall) ctypes.Type {
 	s.throwInvalidOperationForConstant("you can't allocate on constants", allocCall)
 	t := s.UnwrapAnonymous(s.replaceAnonymous(allocCall.TypeParameters[0]))
 	allocCall.TypeParameters[0] = t
+	s.expectValueType(t, allocCall.Token)
 	expr := s.analyzeExpression(allocCall.Parameters[0])
 	if !ctypes.IsInteger(expr) {
 		s.typeMismatchError(allocCall.String(), allocCall.Parameters[0], allocCall.Token, ctypes.I32, expr)
diff --git a/internals/semantic/semantic_type.go b/internals/semantic/semantic_type.go
index e789cce..3270ec9 100644
--- a/internals/semantic/semantic_type.go
+++ b/internals/semantic/semantic_type.go
@@ -5,6 +5,7 @@ import (
 	"github.com/gabivlj/candice/internals/ctypes"
 	"github.com/gabivlj/candice/internals/node"
 	"github.com/gabivlj/candice/internals/ops"
+	"github.com/gabivlj/candice/internals/token"
 )
 
 type SemanticType struct {
@@ -46,3 +47,40 @@ func (s *Semantic) wrapInOperators(expression ast.Expression, times int, operato
 	}
 	return expression
 }
+
+// expectValueType reports types that no value has, because they are void or have a part that is void
+func (s *Semantic) expectValueType(t ctypes.Type, tok token.Token) {
+	if t == ctypes.VoidType || hasVoidPart(t) {
+		s.errorWithStatement("'"+t.String()+"' isn't the type of a value, void can only be the type that a function returns", tok)
+	}
+}
+
+// expectReturnType is like expectValueType, but functions can return nothing
+func (s *Semantic) expectReturnType(t ctypes.Type, tok token.Token) {
+	if t != ctypes.VoidType {
+		s.expectValueType(t, tok)
+	}
+}
+
+func hasVoidPart(t ctypes.Type) bool {
+	switch t := t.(type) {
+	case *ctypes.Array:
+		return t.Inner == ctypes.VoidType || hasVoidPart(t.Inner)
+	case *ctypes.Pointer:
+		return hasVoidPart(t.Inner)
+	case *ctypes.TypeList:
+		for _, element := range t.Types {
+			if element == ctypes.VoidType || hasVoidPart(element) {
+				return true
+			}
+		}
+	case *ctypes.Function:
+		for _, parameter := range t.Parameters {
+			if parameter == ctypes.VoidType || hasVoidPart(parameter) {
+				return true
+			}
+		}
+		return t.Return != nil && hasVoidPart(t.Return)
+	}
+	return false
+}
-- 
2.43.0


From 95de9b0b8dffb2bf6be3ea9b2d112765640af1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:03 +0000
Subject: [PATCH 54/90] fix: types that contain themselves are reported instead
 of overflowing the stack

---
 internals/semantic/semantic.go       |  1 +
 internals/semantic/semantic_steps.go | 72 ++++++++++++++++++++++++++++
 2 files changed, 73 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 17695c0..b4ec8ce 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -156,6 +156,7 @@ func (s *Semantic) Analyze(program *ast.Program) {
 
 	s.predefineTypes(program.Statements)
 	s.fillTypes(program.Statements)
+	s.expectFiniteTypes(program.Statements)
 	// Predefine functions so the order doesn't matter
 	s.predefineFunctions(program.Statements)
 
diff --git a/internals/semantic/semantic_steps.go b/internals/semantic/semantic_steps.go
index 1bbc42c..fff6ff3 100644
--- a/internals/semantic/semantic_steps.go
+++ b/internals/semantic/semantic_steps.go
@@ -105,3 +105,75 @@ func (s *Semantic) fillTypes(statements []ast.Statement) {
 		}
 	}
 }
+
+// expectFiniteTypes reports the structs and unions that contain themselves
+func (s *Semantic) expectFiniteTypes(statements []ast.Statement) {
+	for _, statement := range statements {
+		switch t := statement.(type) {
+		case *ast.StructStatement:
+			s.currentStatementBeingAnalyzed = statement
+			if s.containsType(s, t.Type, t.Type, map[ctypes.Type]bool{}) {
+				s.errorWithStatement("Recursive type detected, '"+ast.RetrieveID(t.Type.Name)+"' contains itself", t.Token)
+			}
+
+		case *ast.UnionStatement:
+			s.currentStatementBeingAnalyzed = statement
+			if s.containsType(s, t.Type, t.Type, map[ctypes.Type]bool{}) {
+				s.errorWithStatement("Recursive type detected, '"+ast.RetrieveID(t.Type.Name)+"' contains itself", t.Token)
+			}
+
+		case *ast.MacroBlock:
+			s.expectFiniteTypes(t.Statements)
+		}
+	}
+}
+
+// containsType returns if the values of t have a value of searched inside
+func (s *Semantic) containsType(root *Semantic, t ctypes.Type, searched ctypes.Type, visited map[ctypes.Type]bool) bool {
+	var parts []ctypes.Type
+	module := s
+	switch t := t.(type) {
+	case *ctypes.Array:
+		parts = []ctypes.Type{t.Inner}
+	case *ctypes.Struct:
+		module, parts = root.moduleOfType(t.Name), t.Fields
+	case *ctypes.Union:
+		module, parts = root.moduleOfType(t.Name), t.Fields
+	}
+
+	if module == nil {
+		return false
+	}
+
+	for _, part := range parts {
+		// the names of types mean what they mean in the module that uses them
+		part = module.UnwrapAnonymous(part)
+		if part == searched {
+			return true
+		}
+		if visited[part] {
+			continue
+		}
+		visited[part] = true
+		if module.containsType(root, part, searched, visited) {
+			return true
+		}
+	}
+
+	return false
+}
+
+// moduleOfType returns the module that defines the type, it can be this one or one that it imports
+func (s *Semantic) moduleOfType(name string) *Semantic {
+	if s.Root.ID == ast.RetrieveRightID(name) {
+		return s
+	}
+
+	for _, imported := range s.modules {
+		if module := imported.moduleOfType(name); module != nil {
+			return module
+		}
+	}
+
+	return nil
+}
-- 
2.43.0


From 664e3587524a23295542bed6722c4378615fa77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:03 +0000
Subject: [PATCH 55/90] fix: the operands of @asm are analyzed

---
 internals/semantic/semantic_builtin.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index f470c1a..37a7849 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -136,5 +136,15 @@ func (s *Semantic) analyzeAsm(asmCall *ast.BuiltinCall) ctypes.Type {
 		return ctypes.TODO()
 	}
 
-	return s.UnwrapAnonymous(asmCall.TypeParameters[0])
+	for _, param := range asmCall.Parameters[1:] {
+		t := s.UnwrapAnonymous(s.analyzeExpression(param))
+		if !ctypes.IsNumeric(t) && !ctypes.IsPointer(t) {
+			s.typeMismatchError(asmCall.String(), param, asmCall.Token, ctypes.I32, t)
+		}
+	}
+
+	t := s.UnwrapAnonymous(s.replaceAnonymous(asmCall.TypeParameters[0]))
+	s.expectReturnType(t, asmCall.Token)
+	asmCall.TypeParameters[0] = t
+	return t
 }
-- 
2.43.0


From 99091ac6fa3fb80ff331f5dc18279cd28923faa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:32 +0000
Subject: [PATCH 56/90] fix: duplicate definitions, external functions declared
 after their use or with other types, results of builtins

---
 internals/ast/mod.go                   |   3 +-
 internals/ast/statements.go            |   2 +-
 internals/compiler/compiler.go         |  51 +++++++-----
 internals/compiler/compiler_steps.go   |  13 +++
 internals/compiler/compiler_utils.go   | 111 ++++++++++---------------
 internals/parser/parser.go             |  10 +--
 internals/semantic/semantic.go         |  24 +++++-
 internals/semantic/semantic_builtin.go |   3 +
 internals/semantic/semantic_steps.go   |  21 +++++
 9 files changed, 139 insertions(+), 99 deletions(-)

diff --git a/internals/ast/mod.go b/internals/ast/mod.go
index ebce0b5..99717b6 100644
--- a/internals/ast/mod.go
+++ b/internals/ast/mod.go
@@ -71,7 +71,8 @@ func RetrieveID(name string) string {
 }
 
 func RetrieveRightID(name string) string {
-	return strings.Split(name, "-")[1]
+	_, id, _ := strings.Cut(name, "-")
+	return id
 }
 
 type Function interface {
diff --git a/internals/ast/statements.go b/internals/ast/statements.go
index 98c2fec..a2472fd 100644
--- a/internals/ast/statements.go
+++ b/internals/ast/statements.go
@@ -42,7 +42,7 @@ type ConditionPlusBlock struct {
 func (c *ConditionPlusBlock) statementNode() {}
 
 func (c *ConditionPlusBlock) GetToken() token.Token {
-	return token.Token{}
+	return c.Condition.GetToken()
 }
 
 func (c *ConditionPlusBlock) String() string {
diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 50620e6..6281865 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -180,7 +180,14 @@ func (c *Compiler) initializeBuiltinLib() {
 		for _, parameter := range bc.Parameters[1:] {
 			expressions = append(expressions, c.loadIfPointer(c.compileExpression(parameter)))
 		}
-		return c.asm(c.ToLLVMType(bc.TypeParameters[0]), bc.Parameters[0].(*ast.StringLiteral).Value, expressions...)
+		result := c.asm(c.ToLLVMType(bc.TypeParameters[0]), bc.Parameters[0].(*ast.StringLiteral).Value, expressions...)
+		if types.IsPointer(result.Type()) {
+			// pointers are handled by the place that stores them
+			alloca := c.newAlloca(result.Type())
+			c.block().NewStore(result, alloca)
+			return alloca
+		}
+		return result
 	}
 
 	c.builtins["realloc"] = func(c *Compiler, call *ast.BuiltinCall) value.Value {
@@ -223,9 +230,12 @@ func (c *Compiler) initializeBuiltinLib() {
 		return constant.NewUndef(types.Void)
 	}
 
-	c.builtins["unreachable"] = func(c *Compiler, _ *ast.BuiltinCall) value.Value {
+	c.builtins["unreachable"] = func(c *Compiler, call *ast.BuiltinCall) value.Value {
 		c.block().NewUnreachable()
-		return constant.NewUndef(types.Void)
+		if call.GetType() == nil || call.GetType() == ctypes.VoidType {
+			return constant.NewUndef(types.Void)
+		}
+		return c.newAlloca(c.ToLLVMType(call.GetType()))
 	}
 
 	// alloc accepts one type parameter, and how many you want to allocate
@@ -428,6 +438,7 @@ func (c *Compiler) Compile(tree ast.Node) {
 		{
 			// Functions can use modules that are imported after them
 			c.compileImports(t.Statements)
+			c.compileExternFuncs(t.Statements)
 			for _, statement := range t.Statements {
 				c.Compile(statement)
 			}
@@ -466,7 +477,7 @@ func (c *Compiler) Compile(tree ast.Node) {
 
 	case *ast.ExternStatement:
 		{
-			c.compileExternFunc(t)
+			// moved to compileExternFuncs
 			return
 		}
 
@@ -486,25 +497,28 @@ func (c *Compiler) compileTypeDefinition(t *ast.TypeDefinition) {
 func (c *Compiler) compileExternFunc(externFunc *ast.ExternStatement) {
 	funcType := externFunc.Type.(*ctypes.Function)
 
-	// Check if the variable has been defined anywhere in LLVM
+	returnType := c.ToLLVMType(funcType.Return)
+	params := []*ir.Param{}
+	parameterTypes := []types.Type{}
+	for _, parameter := range funcType.Parameters {
+		parameterType := c.ToLLVMType(parameter)
+		params = append(params, ir.NewParam("", parameterType))
+		parameterTypes = append(parameterTypes, parameterType)
+	}
+	signature := types.NewFunc(returnType, parameterTypes...)
+	signature.Variadic = funcType.InfiniteParameters
+
+	// Check if the variable has been defined anywhere in LLVM, every declaration uses its own types
 	if f, ok := c.globalVariables[funcType.ExternalName]; ok {
-		c.globalVariables[funcType.Name] = f
+		c.globalVariables[funcType.Name] = &Value{Value: asFunctionType(f.Value, signature), Type: funcType, Constant: true}
 		return
 	}
 
 	if f, ok := c.globalBuiltinDefinitions[funcType.ExternalName]; ok {
-		funk := &Value{Value: f, Type: funcType, Constant: true}
-		c.globalVariables[funcType.Name] = funk
+		c.globalVariables[funcType.Name] = &Value{Value: asFunctionType(f, signature), Type: funcType, Constant: true}
 		return
 	}
 
-	returnType := c.ToLLVMType(funcType.Return)
-	params := []*ir.Param{}
-	for _, parameter := range funcType.Parameters {
-		parameterType := c.ToLLVMType(parameter)
-		params = append(params, ir.NewParam("", parameterType))
-	}
-
 	f := c.m.NewFunc(funcType.ExternalName, returnType, params...)
 	f.CallingConv = enum.CallingConvC
 	if funcType.InfiniteParameters {
@@ -1007,15 +1021,12 @@ func (c *Compiler) compilePrefixExpression(prefix *ast.PrefixOperation) value.Va
 	prefixValue := c.compileExpression(prefix.Right)
 	if prefix.Operation == ops.Subtract {
 		prefixValue = c.loadIfPointer(prefixValue)
-		var negativeOne value.Value
 		if ctypes.IsFloat(prefix.GetType()) {
-			negativeOne = constant.NewFloat(prefixValue.Type().(*types.FloatType), -1)
+			negativeOne := constant.NewFloat(prefixValue.Type().(*types.FloatType), -1)
 			return c.block().NewFMul(prefixValue, negativeOne)
 		}
 
-		negativeOne = constant.NewInt(prefixValue.Type().(*types.IntType), -1)
-
-		return c.block().NewMul(prefixValue, negativeOne)
+		return c.block().NewSub(constant.NewInt(prefixValue.Type().(*types.IntType), 0), prefixValue)
 	}
 
 	if prefix.Operation == ops.AddOne || prefix.Operation == ops.SubtractOne {
diff --git a/internals/compiler/compiler_steps.go b/internals/compiler/compiler_steps.go
index 9db8a73..11d776e 100644
--- a/internals/compiler/compiler_steps.go
+++ b/internals/compiler/compiler_steps.go
@@ -47,3 +47,16 @@ func (c *Compiler) compileImports(statements []ast.Statement) {
 		}
 	}
 }
+
+// compileExternFuncs declares the external functions, before the functions that use them
+func (c *Compiler) compileExternFuncs(statements []ast.Statement) {
+	for _, statement := range statements {
+		switch t := statement.(type) {
+		case *ast.ExternStatement:
+			c.compileExternFunc(t)
+
+		case *ast.MacroBlock:
+			c.compileExternFuncs(t.Statements)
+		}
+	}
+}
diff --git a/internals/compiler/compiler_utils.go b/internals/compiler/compiler_utils.go
index f21ef43..692ea43 100644
--- a/internals/compiler/compiler_utils.go
+++ b/internals/compiler/compiler_utils.go
@@ -31,90 +31,63 @@ func (c *Compiler) createString(s string) value.Value {
 	return i8sType
 }
 
-func (c *Compiler) memcpy() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["memcpy"]; ok {
-		return fn.(*ir.Func)
+// cFunction returns the function of C with that name, called with the specified types. The program
+// and the modules it imports can declare it with other ones.
+func (c *Compiler) cFunction(name string, signature *types.FuncType) value.Value {
+	if fn, ok := c.globalBuiltinDefinitions[name]; ok {
+		return asFunctionType(fn, signature)
 	}
 
-	memcpy := c.m.NewFunc("memcpy", types.Void, ir.NewParam("", types.I8Ptr), ir.NewParam("", types.I8Ptr), ir.NewParam("", types.I64))
-	c.globalBuiltinDefinitions["memcpy"] = memcpy
-	memcpy.CallingConv = enum.CallingConvC
-	return memcpy
+	params := []*ir.Param{}
+	for _, param := range signature.Params {
+		params = append(params, ir.NewParam("", param))
+	}
+
+	fn := c.m.NewFunc(name, signature.RetType, params...)
+	fn.Sig.Variadic = signature.Variadic
+	fn.CallingConv = enum.CallingConvC
+	c.globalBuiltinDefinitions[name] = fn
+	return fn
 }
 
-func (c *Compiler) strlen() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["strlen"]; ok {
-		return fn.(*ir.Func)
+// asFunctionType returns the same function, called with the specified types
+func asFunctionType(fn value.Value, signature *types.FuncType) value.Value {
+	pointer := types.NewPointer(signature)
+	if fn.Type().Equal(pointer) {
+		return fn
 	}
-	strlen := c.m.NewFunc("strlen", types.I64, ir.NewParam("", types.I8Ptr))
-	c.globalBuiltinDefinitions["strlen"] = strlen
-	strlen.CallingConv = enum.CallingConvC
-	return strlen
+
+	return constant.NewBitCast(fn.(constant.Constant), pointer)
 }
 
-func (c *Compiler) malloc() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["malloc"]; ok {
-		return fn.(*ir.Func)
-	}
-	malloc := c.m.NewFunc(
-		"malloc",
-		types.NewPointer(types.I8),
-		ir.NewParam("", types.I64),
-	)
-	c.globalBuiltinDefinitions["malloc"] = malloc
-	malloc.CallingConv = enum.CallingConvC
-	return malloc
+func (c *Compiler) memcpy() value.Value {
+	return c.cFunction("memcpy", types.NewFunc(types.Void, types.I8Ptr, types.I8Ptr, types.I64))
 }
 
-func (c *Compiler) printf() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["printf"]; ok {
-		return fn.(*ir.Func)
-	}
-	printf := c.m.NewFunc(
-		"printf",
-		types.I32,
-		ir.NewParam("", types.NewPointer(types.I8)),
-	)
-	c.globalBuiltinDefinitions["printf"] = printf
-	printf.Sig.Variadic = true
-	printf.CallingConv = enum.CallingConvC
-	return printf
+func (c *Compiler) strlen() value.Value {
+	return c.cFunction("strlen", types.NewFunc(types.I64, types.I8Ptr))
 }
 
-func (c *Compiler) realloc() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["realloc"]; ok {
-		return fn.(*ir.Func)
-	}
-	realloc := c.m.NewFunc("realloc", types.I8Ptr, ir.NewParam("", types.I8Ptr), ir.NewParam("", types.I64))
-	c.globalBuiltinDefinitions["realloc"] = realloc
-	realloc.Sig.Variadic = true
-	realloc.CallingConv = enum.CallingConvC
-	return realloc
+func (c *Compiler) malloc() value.Value {
+	return c.cFunction("malloc", types.NewFunc(types.I8Ptr, types.I64))
 }
 
-func (c *Compiler) free() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["free"]; ok {
-		return fn.(*ir.Func)
-	}
-	free := c.m.NewFunc("free", types.Void, ir.NewParam("", types.I8Ptr))
-	c.globalBuiltinDefinitions["free"] = free
-	free.CallingConv = enum.CallingConvC
-	return free
+func (c *Compiler) printf() value.Value {
+	signature := types.NewFunc(types.I32, types.I8Ptr)
+	signature.Variadic = true
+	return c.cFunction("printf", signature)
 }
 
-func (c *Compiler) strcmp() *ir.Func {
-	if fn, ok := c.globalBuiltinDefinitions["strcmp"]; ok {
-		return fn.(*ir.Func)
-	}
-	strcmp := c.m.NewFunc(
-		"strcmp",
-		types.I32,
-		ir.NewParam("", types.I8Ptr),
-		ir.NewParam("", types.I8Ptr),
-	)
-	c.globalBuiltinDefinitions["strcmp"] = strcmp
-	strcmp.CallingConv = enum.CallingConvC
-	return strcmp
+func (c *Compiler) realloc() value.Value {
+	return c.cFunction("realloc", types.NewFunc(types.I8Ptr, types.I8Ptr, types.I64))
+}
+
+func (c *Compiler) free() value.Value {
+	return c.cFunction("free", types.NewFunc(types.Void, types.I8Ptr))
+}
+
+func (c *Compiler) strcmp() value.Value {
+	return c.cFunction("strcmp", types.NewFunc(types.I32, types.I8Ptr, types.I8Ptr))
 }
 
 // use this for concatenating strings
diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index e9f32e2..52b381e 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -233,7 +233,7 @@ func (p *Parser) parseGenericTypeDefinition() ast.Statement {
 	}
 
 	if p.currentTypeParameter >= len(p.TypeParameters) {
-		p.Errors = append(p.Errors, fmt.Errorf("there are not enough type parameters passed to the file, we only got %d but it needs more", len(p.TypeParameters)))
+		p.addErrorMessage(fmt.Sprintf("there are not enough type parameters passed to the file, we only got %d but it needs more", len(p.TypeParameters)))
 		return &ast.GenericTypeDefinition{}
 	}
 	t := p.TypeParameters[p.currentTypeParameter]
@@ -1109,7 +1109,7 @@ func (p *Parser) parseFor() ast.Statement {
 				Condition:            nil,
 				InitializerStatement: nil,
 				Operation:            nil,
-				Block:                &ast.Block{Statements: []ast.Statement{possibleStatement}},
+				Block:                &ast.Block{Statements: []ast.Statement{possibleStatement}, Token: forToken},
 			}
 		}
 
@@ -1120,7 +1120,7 @@ func (p *Parser) parseFor() ast.Statement {
 				Condition:            nil,
 				InitializerStatement: nil,
 				Operation:            nil,
-				Block:                &ast.Block{Statements: []ast.Statement{possibleStatement}},
+				Block:                &ast.Block{Statements: []ast.Statement{possibleStatement}, Token: forToken},
 			}
 		}
 
@@ -1159,10 +1159,10 @@ func (p *Parser) parseExtern() ast.Statement {
 
 	if _, ok := t.(*ctypes.Function); !ok {
 		p.addErrorMessage("expected external function, got " + t.String())
-		return &ast.ExternStatement{}
+		return &ast.ExternStatement{Token: extern, Type: ctypes.TODO()}
 	}
 
-	if fun, ok := t.(*ctypes.Function); !ok || fun.Name == "" {
+	if fun, ok := t.(*ctypes.Function); !ok || ast.RetrieveID(fun.Name) == "" {
 		p.addErrorMessage("badly formed external function")
 	} else {
 		fun.ExternalName = ast.RetrieveID(fun.Name)
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index b4ec8ce..37d87ce 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -18,7 +18,6 @@ import (
 	"github.com/gabivlj/candice/internals/token"
 	"github.com/gabivlj/candice/internals/undomap"
 	"github.com/gabivlj/candice/pkg/a"
-	"github.com/gabivlj/candice/pkg/logger"
 )
 
 type Semantic struct {
@@ -206,6 +205,7 @@ func (s *Semantic) analyzeStatement(statement ast.Statement) {
 
 	case *ast.UnionStatement:
 		// moved to fillTypes
+		s.expectStatementOutsideFunction(statementType.Token)
 		return
 
 	case *ast.ImportStatement:
@@ -219,6 +219,7 @@ func (s *Semantic) analyzeStatement(statement ast.Statement) {
 		s.analyzeDeclarationStatement(statementType)
 		return
 	case *ast.StructStatement:
+		s.expectStatementOutsideFunction(statementType.Token)
 		return
 
 	case *ast.IfStatement:
@@ -236,6 +237,7 @@ func (s *Semantic) analyzeStatement(statement ast.Statement) {
 	case *ast.ExternStatement:
 		// moved to fillTypes
 		// s.analyzeExternStatement(statementType)
+		s.expectStatementOutsideFunction(statementType.Token)
 		return
 
 	case *ast.ExpressionStatement:
@@ -260,6 +262,7 @@ func (s *Semantic) analyzeStatement(statement ast.Statement) {
 	case *ast.TypeDefinition:
 		// moved to fillTypes
 		//s.analyzeTypeDefinition(statementType)
+		s.expectStatementOutsideFunction(statementType.Token)
 		return
 
 	case *ast.ContinueStatement:
@@ -276,6 +279,7 @@ func (s *Semantic) analyzeTypeDefinition(typeDef *ast.TypeDefinition) {
 	s.replaceAnonymous(typeDef.Type)
 	trueType := s.UnwrapAnonymous(typeDef.Type)
 	typeDef.Type = trueType
+	s.expectUndefinedType(typeDef.Name, typeDef.Token)
 	s.definedTypes[typeDef.Name] = trueType
 }
 
@@ -289,7 +293,6 @@ func (s *Semantic) analyzeExternStatement(extern *ast.ExternStatement) {
 	if !ok {
 		s.typeMismatchError(extern.String(), nil, extern.Token, &ctypes.Function{Name: "function"}, extern.Type)
 	}
-	s.expectValueType(funk, extern.Token)
 	s.variables.Add(funk.Name, s.newType(funk))
 }
 
@@ -374,6 +377,7 @@ func (s *Semantic) analyzeFunctionType(functionToken token.Token, fun *ctypes.Fu
 	temporaryReturns := s.returns
 	temporaryExpectedReturnType := s.currentExpectedReturnType
 	fun.Return = s.UnwrapAnonymous(fun.Return)
+	s.expectDistinctNames("parameter", fun.Names, functionToken)
 	for _, parameter := range fun.Parameters {
 		s.expectValueType(parameter, functionToken)
 	}
@@ -454,6 +458,12 @@ func (s *Semantic) expectStatementInsideFunction(t token.Token) {
 	}
 }
 
+func (s *Semantic) expectStatementOutsideFunction(t token.Token) {
+	if s.analyzingInsideFunction() {
+		s.errorWithStatement("types and external functions can only be declared at the top level of a file", t)
+	}
+}
+
 func (s *Semantic) analyzeIfStatement(ifStatement *ast.IfStatement) {
 	s.expectStatementInsideFunction(ifStatement.Token)
 	condition := s.analyzeExpression(ifStatement.Condition)
@@ -507,6 +517,7 @@ func (s *Semantic) analyzeReturnStatement(returnStatement *ast.ReturnStatement)
 
 func (s *Semantic) analyzeStructStatement(statementType *ast.StructStatement) {
 	s.definedTypes[statementType.Type.Name] = statementType.Type
+	s.expectDistinctNames("field", statementType.Type.Names, statementType.Token)
 	for i, t := range statementType.Type.Fields {
 		t = s.UnwrapAnonymous(t)
 		// Get underlying type
@@ -535,6 +546,7 @@ func (s *Semantic) analyzeStructStatement(statementType *ast.StructStatement) {
 func (s *Semantic) analyzeUnionStatement(statementType *ast.UnionStatement) {
 	// nit: literally the same function as analzyzeStructStatement, rewrite it to a single one.
 	s.definedTypes[statementType.Type.Name] = statementType.Type
+	s.expectDistinctNames("field", statementType.Type.Names, statementType.Token)
 	for i, t := range statementType.Type.Fields {
 		t = s.UnwrapAnonymous(t)
 		// Get underlying type
@@ -571,6 +583,10 @@ func (s *Semantic) analyzeBuiltinCall(call *ast.BuiltinCall) ctypes.Type {
 }
 
 func (s *Semantic) analyzeDeclarationStatement(declaration *ast.DeclarationStatement) {
+	if !s.analyzingInsideFunction() && s.variables.Get(declaration.Name) != nil {
+		s.errorWithStatement("'"+ast.RetrieveID(declaration.Name)+"' is already defined", declaration.Token)
+	}
+
 	s.expectConstantExpression = declaration.Constant
 
 	ctype := s.analyzeExpression(declaration.Expression)
@@ -635,7 +651,8 @@ func (s *Semantic) UnwrapAnonymous(t ctypes.Type) ctypes.Type {
 			if semantic == nil && s.Root.ID == id {
 				semantic = s
 			} else if semantic == nil {
-				logger.Warning("there might be an error on the compiler, we can't find a module for some reason")
+				// A name that isn't of any module, it will not be found
+				semantic = s
 			}
 		} else {
 			semantic = s.retrieveModule(module)
@@ -994,6 +1011,7 @@ func (s *Semantic) analyzeStructLiteral(structLiteral *ast.StructLiteral) ctypes
 
 func (s *Semantic) analyzeArrayLiteral(arrayLiteral *ast.ArrayLiteral) ctypes.Type {
 	arrayType := arrayLiteral.Type.(*ctypes.Array)
+	arrayType.Inner = s.UnwrapAnonymous(s.replaceAnonymous(arrayType.Inner))
 	currType := arrayType.Inner
 	s.expectValueType(arrayType, arrayLiteral.Token)
 
diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 37a7849..5f9b43d 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -145,6 +145,9 @@ func (s *Semantic) analyzeAsm(asmCall *ast.BuiltinCall) ctypes.Type {
 
 	t := s.UnwrapAnonymous(s.replaceAnonymous(asmCall.TypeParameters[0]))
 	s.expectReturnType(t, asmCall.Token)
+	if t != ctypes.VoidType && !ctypes.IsNumeric(t) && !ctypes.IsPointer(t) {
+		s.error("the result of asm can't be of the type "+t.String(), asmCall.Token)
+	}
 	asmCall.TypeParameters[0] = t
 	return t
 }
diff --git a/internals/semantic/semantic_steps.go b/internals/semantic/semantic_steps.go
index fff6ff3..4e69163 100644
--- a/internals/semantic/semantic_steps.go
+++ b/internals/semantic/semantic_steps.go
@@ -36,6 +36,17 @@ func (s *Semantic) expectUndefinedType(name string, tok token.Token) {
 	}
 }
 
+// expectDistinctNames reports the parameters or fields that are declared twice
+func (s *Semantic) expectDistinctNames(what string, names []string, tok token.Token) {
+	seen := make(map[string]bool, len(names))
+	for _, name := range names {
+		if seen[name] {
+			s.error(what+" '"+ast.RetrieveID(name)+"' is declared twice", tok)
+		}
+		seen[name] = true
+	}
+}
+
 func (s *Semantic) predefineFunctions(statements []ast.Statement) {
 	for _, statement := range statements {
 		s.currentStatementBeingAnalyzed = statement
@@ -57,6 +68,16 @@ func (s *Semantic) predefineFunctions(statements []ast.Statement) {
 				s.variables.Add(t.FunctionType.Name, function)
 			}
 
+		case *ast.ExternStatement:
+			{
+				fun := t.Type.(*ctypes.Function)
+				for i, param := range fun.Parameters {
+					fun.Parameters[i] = s.replaceAnonymous(s.UnwrapAnonymous(param))
+				}
+				fun.Return = s.replaceAnonymous(s.UnwrapAnonymous(fun.Return))
+				s.expectValueType(fun, t.Token)
+			}
+
 		case *ast.MacroBlock:
 			{
 				s.predefineFunctions(t.Statements)
-- 
2.43.0


From 65c5704b651ade6b51188baeb69a3365b3aa4b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 57/90] fix: methods that aren't called, assignments to values
 in lists, function types of fields that mention later types

---
 internals/semantic/semantic.go | 38 ++++++++++++++++++++++++++++------
 pkg/format/format.go           |  2 +-
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 37d87ce..bb43333 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -58,6 +58,9 @@ type Semantic struct {
 	Root                 *ast.Program
 	additionalExpression ast.Expression
 
+	// expression that is being called, the only one where a method can appear
+	calledExpression ast.Expression
+
 	// path of the directory in the context where the compiler is running
 	ContextDirectoryPath string
 }
@@ -302,6 +305,15 @@ func (s *Semantic) analyzeAssigmentStatement(assign *ast.AssignmentStatement) {
 	s.expectNonConstantExpression = true
 	left := s.analyzeExpression(assign.Left)
 	s.expectNonConstantExpression = false
+	places := []ast.Expression{assign.Left}
+	if list, ok := assign.Left.(*ast.CommaExpressions); ok {
+		places = list.Expressions
+	}
+	for _, place := range places {
+		if !isPlace(place) {
+			s.errorWithStatement("you can't assign to a value that is not stored anywhere", assign.Token)
+		}
+	}
 	if !s.areTypesEqualIncludingUnions(left, right) {
 		s.typeMismatchError(assign.String(), assign.Expression, s.currentStatementBeingAnalyzed.GetToken(), left, right)
 	}
@@ -532,6 +544,8 @@ func (s *Semantic) analyzeStructStatement(statementType *ast.StructStatement) {
 				return
 			}
 			s.swapTypes(t, definedType)
+		} else if function, ok := unwrappedType.(*ctypes.Function); ok {
+			s.replaceAnonymous(function)
 		} else if statementType.Type == t {
 			s.error(
 				"Recursive type detected",
@@ -561,6 +575,8 @@ func (s *Semantic) analyzeUnionStatement(statementType *ast.UnionStatement) {
 				return
 			}
 			s.swapTypes(t, definedType)
+		} else if function, ok := unwrappedType.(*ctypes.Function); ok {
+			s.replaceAnonymous(function)
 		} else if statementType.Type == t {
 			s.error(
 				"Recursive type detected",
@@ -1036,6 +1052,7 @@ func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 	expectNonConstantExpression := s.expectNonConstantExpression
 	s.expectNonConstantExpression = false
 	defer func() { s.expectNonConstantExpression = expectNonConstantExpression }()
+	s.calledExpression = call.Left
 	possibleFuncType := s.analyzeExpression(call.Left)
 
 	// it is possible that we are retrieving a sturct access with function
@@ -1279,6 +1296,7 @@ func (s *Semantic) findFunctionInAllModules(t ctypes.Type, accessName string) *c
 }
 
 func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctypes.Type {
+	isCalled := s.calledExpression == binaryOperation
 	left := s.analyzeExpression(binaryOperation.Left)
 	var fieldAccessor ctypes.FieldType
 	var isFieldAccessor bool
@@ -1302,8 +1320,7 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 				return ctypes.TODO()
 			}
 
-			s.additionalExpression = binaryOperation.Left
-			return fn
+			return s.analyzeMethod(binaryOperation, fn, isCalled)
 		}
 		ptr.Inner = fieldAccessor
 	} else {
@@ -1315,8 +1332,7 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 				return ctypes.TODO()
 			}
 
-			s.additionalExpression = binaryOperation.Left
-			return fn
+			return s.analyzeMethod(binaryOperation, fn, isCalled)
 		}
 	}
 
@@ -1347,14 +1363,24 @@ func (s *Semantic) analyzeFieldAccess(binaryOperation *ast.BinaryOperation) ctyp
 			s.typeMismatchError(binaryOperation.String(), binaryOperation.Left, binaryOperation.Token, fn.Parameters[0], left)
 			return ctypes.TODO()
 		}
-		s.additionalExpression = binaryOperation.Left
-		return variable.Type
+		return s.analyzeMethod(binaryOperation, fn, isCalled)
 	}
 
 	binaryOperation.Type = t
 	return t
 }
 
+// analyzeMethod returns the type of a method, which only exists while it's being called
+func (s *Semantic) analyzeMethod(access *ast.BinaryOperation, method *ctypes.Function, isCalled bool) ctypes.Type {
+	if !isCalled {
+		s.errorWithStatement("methods can only be called, got "+access.String(), access.Token)
+		return ctypes.TODO()
+	}
+
+	s.additionalExpression = access.Left
+	return method
+}
+
 func (s *Semantic) isArithmetic(op ops.Operation) bool {
 	return op == ops.OR || op == ops.Multiply || op == ops.BinaryXOR || op == ops.BinaryOR ||
 		op == ops.BinaryAND || op == ops.AND || op == ops.Add || op == ops.Subtract || op == ops.LessThanEqual ||
diff --git a/pkg/format/format.go b/pkg/format/format.go
index 2b74245..54affc9 100644
--- a/pkg/format/format.go
+++ b/pkg/format/format.go
@@ -13,7 +13,7 @@ func StringWithTabs(s string, startingTabs int) string {
 		if c == '{' {
 			tabs++
 		}
-		if prev == '\n' {
+		if prev == '\n' && tabs > 0 {
 			builder.WriteString(strings.Repeat("\t", tabs))
 		}
 		builder.WriteRune(c)
-- 
2.43.0


From 2d264327e3ba17c2390806c2343acfa294bdb69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:09 +0000
Subject: [PATCH 58/90] fix: modules with a function called main, main as a
 value, arrays that functions return in casts, @unreachable in expressions

---
 internals/ast/mod.go                    |  3 --
 internals/compiler/compiler.go          | 51 ++++++++++++++++++++-----
 internals/compiler/compiler_constant.go |  3 ++
 internals/semantic/semantic.go          |  3 ++
 internals/semantic/semantic_builtin.go  |  1 -
 5 files changed, 48 insertions(+), 13 deletions(-)

diff --git a/internals/ast/mod.go b/internals/ast/mod.go
index 99717b6..3088dd2 100644
--- a/internals/ast/mod.go
+++ b/internals/ast/mod.go
@@ -60,9 +60,6 @@ func (p *Program) String() string {
 }
 
 func CreateIdentifier(name string, id string) string {
-	if name == "main" {
-		return name
-	}
 	return name + "-" + id
 }
 
diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 6281865..ccda3d9 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -45,6 +45,9 @@ type Compiler struct {
 
 	currentFunction *ir.Func
 
+	// It compiles a file that is imported by another one
+	isModule bool
+
 	// Flag to indicate caller that this value shouldn't be loaded into memory
 	// This flag will be set to false again once loadIfPointer is called.
 	doNotLoadIntoMemory bool
@@ -106,6 +109,7 @@ func New(context *semantic.Semantic, parent ...*Compiler) *Compiler {
 		modules:                  map[string]*Compiler{},
 		compiledModules:          compiledModules,
 		eventHandler:             func(e Event) {},
+		isModule:                 len(parent) > 0,
 	}
 
 	c.variables.Add("<>", nil)
@@ -539,7 +543,8 @@ func (c *Compiler) compileExternFunc(externFunc *ast.ExternStatement) {
 
 func (c *Compiler) compileReturn(ret *ast.ReturnStatement) {
 	if ret.Expression == nil {
-		if c.currentFunction.Name() == "main" {
+		if !types.IsVoid(c.currentFunction.Sig.RetType) {
+			// the main function
 			c.block().NewRet(zero)
 			return
 		}
@@ -597,19 +602,28 @@ func (c *Compiler) compileFunctionType(name string, funk ast.Function) *ir.Func
 		params = append(params, ir.NewParam(name, t))
 	}
 
-	if functionType.IsMainFunction() && functionType.Return == ctypes.VoidType || functionType.Return == nil {
-		functionType.Return = ctypes.I32
+	returnType := functionType.Return
+	if functionType.IsMainFunction() && returnType == ctypes.VoidType || returnType == nil {
+		returnType = ctypes.I32
 	}
 
-	toReturnType := c.ToLLVMType(functionType.Return)
+	toReturnType := c.ToLLVMType(returnType)
 	// Declare llvmFunction
-	llvmFunction := c.m.NewFunc(functionType.Name, toReturnType, params...)
-	extendReturn(llvmFunction, functionType.Return)
+	llvmName := functionType.Name
+	if functionType.IsMainFunction() {
+		// only the entry of the program has that name
+		functionType.RedefineWithOriginalName = false
+		if !c.isModule {
+			llvmName = ast.RetrieveID(llvmName)
+		}
+	}
+	llvmFunction := c.m.NewFunc(llvmName, toReturnType, params...)
+	extendReturn(llvmFunction, returnType)
 
 	if functionType.RedefineWithOriginalName {
-		llvmFunctionExtern := c.m.NewFunc(functionType.ExternalName, c.ToLLVMType(functionType.Return), params...)
+		llvmFunctionExtern := c.m.NewFunc(functionType.ExternalName, toReturnType, params...)
 		llvmFunctionExtern.CallingConv = enum.CallingConvC
-		extendReturn(llvmFunctionExtern, functionType.Return)
+		extendReturn(llvmFunctionExtern, returnType)
 		c.globalVariables[functionType.ExternalName] = &Value{
 			Value:    llvmFunctionExtern,
 			Type:     functionType,
@@ -1153,13 +1167,25 @@ func (c *Compiler) retrieveVariable(name string) value.Value {
 		}
 
 		c.doNotLoadIntoMemory = true
-		return fn.Value
+		return c.functionValue(fn)
 	}
 
 	c.exitInternalError(fmt.Sprintf("Variable %s doesn't exist.", name))
 	panic("")
 }
 
+// functionValue returns the function with the type that it was declared with. The main function
+// returns the status of the program even if it was declared without a result.
+func (c *Compiler) functionValue(fn *Value) value.Value {
+	functionType := fn.Type.(*ctypes.Function)
+	if !functionType.IsMainFunction() {
+		return fn.Value
+	}
+
+	signature := c.ToLLVMType(functionType).(*types.PointerType).ElemType.(*types.FuncType)
+	return asFunctionType(fn.Value, signature)
+}
+
 func (c *Compiler) retrieveLocalVariable(name string) value.Value {
 	return c.variables.Get(name)
 }
@@ -1767,6 +1793,13 @@ func (c *Compiler) handleCast(call *ast.BuiltinCall) value.Value {
 	toReturnType := c.ToLLVMType(typeParameter)
 	variable := c.compileExpression(call.Parameters[0])
 
+	if types.IsArray(variable.Type()) {
+		// the pointer designates a copy of the array that isn't stored anywhere
+		alloca := c.newAlloca(variable.Type())
+		c.block().NewStore(variable, alloca)
+		variable = alloca
+	}
+
 	// TODO: Array to integer
 	if types.IsPointer(variable.Type()) && types.IsArray(variable.Type().(*types.PointerType).ElemType) {
 		// We don't want people to take this pointer and load it into memory
diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index 0385a22..e0a078b 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -95,6 +95,9 @@ func (c *Compiler) compileConstantIdentifier(expr *ast.Identifier) constant.Cons
 			return value
 		}
 	} else if global, ok := c.globalVariables[expr.Name]; ok && global.Constant {
+		if ctypes.IsFunction(global.Type) {
+			return c.functionValue(global).(constant.Constant)
+		}
 		if value, isConstant := global.Value.(constant.Constant); isConstant {
 			return value
 		}
diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index bb43333..267bb61 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -246,6 +246,9 @@ func (s *Semantic) analyzeStatement(statement ast.Statement) {
 	case *ast.ExpressionStatement:
 		s.expectStatementInsideFunction(statementType.Token)
 		s.analyzeExpression(statementType.Expression)
+		if call, isBuiltin := statementType.Expression.(*ast.BuiltinCall); isBuiltin && call.Name == "unreachable" {
+			s.returns = true
+		}
 		return
 
 	case *ast.ReturnStatement:
diff --git a/internals/semantic/semantic_builtin.go b/internals/semantic/semantic_builtin.go
index 5f9b43d..29aa5a1 100644
--- a/internals/semantic/semantic_builtin.go
+++ b/internals/semantic/semantic_builtin.go
@@ -58,7 +58,6 @@ func (s *Semantic) analyzeAlloc(allocCall *ast.BuiltinCall) ctypes.Type {
 }
 
 func (s *Semantic) analyzeUnreachable(_ *ast.BuiltinCall) ctypes.Type {
-	s.returns = true
 	return s.currentExpectedReturnType
 }
 
-- 
2.43.0


From 4ccec3034c22950137b087880066882f6b17eb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 59/90] fix: arrays and functions of members of an union don't
 become the ones of the union

---
 internals/semantic/semantic.go          |  31 +-
 internals/tests/.intermediate_output.ll | 502 +++++++++++++++++++-----
 internals/tests/exec                    | Bin 50433 -> 16664 bytes
 3 files changed, 395 insertions(+), 138 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 267bb61..556f70f 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -838,39 +838,12 @@ func (s *Semantic) areTypesEqualIncludingUnions(first, second ctypes.Type) bool
 		return s.existsTypeInUnion(union, second)
 	}
 
-	if s.checkPossibleCommaTypeEquality(first, second) {
-		return true
-	}
-
+	// a pointer to a member is a pointer to the union, but elements, parameters and results can't be converted
 	if ctypes.IsPointer(first) && ctypes.IsPointer(second) {
 		return s.areTypesEqualIncludingUnions(first.(*ctypes.Pointer).Inner, second.(*ctypes.Pointer).Inner)
 	}
 
-	if firstFunc, ok := first.(*ctypes.Function); ok {
-		secondFunc, ok := second.(*ctypes.Function)
-		if !ok || len(firstFunc.Parameters) != len(secondFunc.Parameters) ||
-			firstFunc.InfiniteParameters != secondFunc.InfiniteParameters {
-			return false
-		}
-		for i, param := range firstFunc.Parameters {
-			if !s.areTypesEqualIncludingUnions(secondFunc.Parameters[i], param) {
-				return false
-			}
-		}
-		return s.areTypesEqualIncludingUnions(firstFunc.Return, secondFunc.Return)
-	}
-
-	if ctypes.IsArray(first) {
-		fArray := first.(*ctypes.Array)
-		sArray, ok := second.(*ctypes.Array)
-		if !ok {
-			return false
-		}
-
-		return fArray.Length == sArray.Length && s.areTypesEqualIncludingUnions(fArray.Inner, sArray.Inner)
-	}
-
-	return false
+	return s.areTypesEqual(first, second)
 }
 
 func (s *Semantic) analyzeExpression(expression ast.Expression) ctypes.Type {
diff --git a/internals/tests/.intermediate_output.ll b/internals/tests/.intermediate_output.ll
index cc3875e..faa6460 100644
--- a/internals/tests/.intermediate_output.ll
+++ b/internals/tests/.intermediate_output.ll
@@ -1,122 +1,406 @@
-%aStruct-AtjApNeCmQ = type { i32, i64 }
-
-@string.literal.xeeQEFnZXm = global [1 x i8] c"\00"
-@"%u %s" = global [6 x i8] c"%u %s\00"
-@string.literal.HCbUNRUAKc = global [1 x i8] c"\00"
-@"%d %s" = global [6 x i8] c"%d %s\00"
-@string.literal.HkHgHpLbfX = global [21 x i8] c"this shouldn't print\00"
+@string.literal.dTzKnbWoKb = global [4 x i8] c"bad\00"
 @"%s" = global [3 x i8] c"%s\00"
-@string.literal.QxYslOgoBC = global [30 x i8] c"this should not print as well\00"
-@string.literal.RVoQhxXblh = global [25 x i8] c"this shouldnt print!!!!!\00"
-
-define i32 @loadByPointer-AtjApNeCmQ(i32* %i-AtjApNeCmQ) {
-loadByPointer-AtjApNeCmQ:
-	%0 = alloca i32*
-	store i32* %i-AtjApNeCmQ, i32** %0
-	%1 = load i32*, i32** %0
-	%2 = load i32, i32* %1
-	ret i32 %2
+@string.literal.XEWOyhUkPy = global [5 x i8] c"bad2\00"
+@string.literal.VUZiecnGhb = global [5 x i8] c"bad3\00"
+@string.literal.hrwstmGuod = global [5 x i8] c"bad4\00"
+@string.literal.bCziogedmG = global [5 x i8] c"bad5\00"
+@string.literal.YoQZmpCSKD = global [5 x i8] c"bad6\00"
+@string.literal.rHjYQjWdXv = global [5 x i8] c"bad7\00"
+@string.literal.tGsNdHWGpW = global [5 x i8] c"bad8\00"
+@string.literal.FGBAfxkoAG = global [5 x i8] c"bad9\00"
+@string.literal.kNphEEmKxb = global [5 x i8] c"bad7\00"
+@string.literal.YCfTrfufou = global [5 x i8] c"bad8\00"
+@string.literal.sUZACtoQhG = global [5 x i8] c"bad9\00"
+
+define i32 @t-TRTrBBBHci(i32 %e-TRTrBBBHci) {
+t-TRTrBBBHci:
+	%0 = alloca i32
+	store i32 %e-TRTrBBBHci, i32* %0
+	%1 = load i32, i32* %0
+	%2 = icmp eq i32 %1, 3
+	br i1 %2, label %if.then.laRmmQAtJI, label %leave.PKcszPOzDv
+
+if.then.laRmmQAtJI:
+	ret i32 0
+
+if.else.nPxsCEaHtT:
+	ret i32 2
+
+elseif.then.MKsdcphwHp:
+	ret i32 1
+
+leave.PKcszPOzDv:
+	%3 = load i32, i32* %0
+	%4 = icmp eq i32 %3, 4
+	br i1 %4, label %elseif.then.MKsdcphwHp, label %if.else.nPxsCEaHtT
+
+lastLeave.ICmWdLaOOH:
+	unreachable
 }
 
-define i32 @main() {
-main:
-	%0 = trunc i64 u0xFFFFFF3C to i32
+define i32 @tt-TRTrBBBHci(i32 %e-TRTrBBBHci) {
+tt-TRTrBBBHci:
+	%0 = alloca i32
+	store i32 %e-TRTrBBBHci, i32* %0
+	%1 = load i32, i32* %0
+	%2 = icmp eq i32 %1, 3
+	br i1 %2, label %if.then.DYApprsjmK, label %leave.pCzOftRYeA
+
+if.then.DYApprsjmK:
+	ret i32 0
+
+if.else.xOEPftKNqc:
+	ret i32 2
+
+elseif.then.ygETSeQDQb:
+	br label %lastLeave.BESYSrOzeN
+
+leave.pCzOftRYeA:
+	%3 = load i32, i32* %0
+	%4 = icmp eq i32 %3, 4
+	br i1 %4, label %elseif.then.ygETSeQDQb, label %if.else.xOEPftKNqc
+
+lastLeave.BESYSrOzeN:
+	ret i32 1
+}
+
+define i32 @ttt-TRTrBBBHci(i32 %e-TRTrBBBHci, i32 %j-TRTrBBBHci) {
+ttt-TRTrBBBHci:
+	%0 = alloca i32
 	%1 = alloca i32
-	store i32 %0, i32* %1
+	store i32 %e-TRTrBBBHci, i32* %1
+	store i32 %j-TRTrBBBHci, i32* %0
 	%2 = load i32, i32* %1
-	%3 = add i32 %2, 100
-	store i32 %3, i32* %1
-	%4 = load i32, i32* %1
+	%3 = icmp eq i32 %2, 3
+	br i1 %3, label %if.then.CfXIoVCVMz, label %leave.PzHQFroPOz
+
+if.then.CfXIoVCVMz:
+	ret i32 0
+
+if.else.KuAocYrlOm:
+	ret i32 2
+
+elseif.then.aoCypbkVpI:
+	%4 = load i32, i32* %0
+	%5 = call i32 @tt-TRTrBBBHci(i32 %4)
+	%6 = icmp eq i32 %5, 0
+	br i1 %6, label %if.then.rAoKCaHUWl, label %leave.fRNQGPLLbL
+
+if.then.rAoKCaHUWl:
+	ret i32 5
+
+if.else.DRxFcsdogk:
+	ret i32 7
+
+elseif.then.BaOkWFDzdD:
+	ret i32 6
+
+leave.fRNQGPLLbL:
+	%7 = load i32, i32* %0
+	%8 = call i32 @tt-TRTrBBBHci(i32 %7)
+	%9 = icmp eq i32 %8, 1
+	br i1 %9, label %elseif.then.BaOkWFDzdD, label %if.else.DRxFcsdogk
+
+lastLeave.slFOgjbbsK:
+	unreachable
+
+leave.PzHQFroPOz:
+	%10 = load i32, i32* %1
+	%11 = icmp eq i32 %10, 4
+	br i1 %11, label %elseif.then.aoCypbkVpI, label %if.else.KuAocYrlOm
+
+lastLeave.ctdcyYgznX:
+	unreachable
+}
+
+define i32 @tttt-TRTrBBBHci(i32 %e-TRTrBBBHci, i32 %j-TRTrBBBHci) {
+tttt-TRTrBBBHci:
+	%0 = alloca i32
+	%1 = alloca i32
+	%2 = alloca i32
+	store i32 %e-TRTrBBBHci, i32* %2
+	store i32 %j-TRTrBBBHci, i32* %1
+	%3 = load i32, i32* %2
+	%4 = icmp eq i32 %3, 3
+	br i1 %4, label %if.then.nvKvCYKEDi, label %leave.MbUkrvdKxL
+
+if.then.nvKvCYKEDi:
+	ret i32 0
+
+if.else.HdrufQYkhI:
+	ret i32 2
+
+elseif.then.CHmLoSGNvI:
 	%5 = load i32, i32* %1
-	%6 = icmp eq i32 %4, %5
-	br i1 %6, label %if.then.EeRDlKSedw, label %if.else.TswFZYlWrr
-
-if.then.EeRDlKSedw:
-	%7 = load i32, i32* %1
-	%8 = getelementptr inbounds [1 x i8], [1 x i8]* @string.literal.xeeQEFnZXm, i32 0, i32 0
-	%9 = getelementptr inbounds [6 x i8], [6 x i8]* @"%u %s", i32 0, i32 0
-	%10 = call i32 (i8*, ...) @printf(i8* %9, i32 %7, i8* %8)
-	%11 = load i32, i32* %1
-	%12 = getelementptr inbounds [1 x i8], [1 x i8]* @string.literal.HCbUNRUAKc, i32 0, i32 0
-	%13 = getelementptr inbounds [6 x i8], [6 x i8]* @"%d %s", i32 0, i32 0
-	%14 = call i32 (i8*, ...) @printf(i8* %13, i32 %11, i8* %12)
-	br label %lastLeave.jvFySGenHV
-
-if.else.TswFZYlWrr:
-	br label %lastLeave.jvFySGenHV
-
-lastLeave.jvFySGenHV:
-	%15 = alloca i32
-	store i32 3, i32* %15
-	%16 = alloca i32*
-	store i32* %15, i32** %16
-	%17 = load i32*, i32** %16
-	%18 = call i32 @loadByPointer-AtjApNeCmQ(i32* %17)
-	%19 = alloca i32
-	store i32 %18, i32* %19
-	%20 = load i32, i32* %19
-	%21 = icmp ne i32 %20, 3
-	br i1 %21, label %if.then.SlWpmWawUr, label %if.else.qZEegurczU
-
-if.then.SlWpmWawUr:
-	%22 = getelementptr inbounds [21 x i8], [21 x i8]* @string.literal.HkHgHpLbfX, i32 0, i32 0
+	%6 = call i32 @tt-TRTrBBBHci(i32 %5)
+	%7 = icmp eq i32 %6, 0
+	br i1 %7, label %if.then.hotsoJDAaa, label %leave.jEDusExcLX
+
+if.then.hotsoJDAaa:
+	ret i32 5
+
+if.else.ejewltIzzC:
+	%8 = add i32 3, 3
+	store i32 %8, i32* %0
+	%9 = load i32, i32* %0
+	%10 = icmp sgt i32 %9, 322
+	br i1 %10, label %if.then.ovajIvsgan, label %leave.YmevCvZWEI
+
+if.then.ovajIvsgan:
+	%11 = sub i32 0, 1
+	ret i32 %11
+
+if.else.ggVQvkNxRB:
+	br label %lastLeave.qeixXjorLR
+
+elseif.then.yIFuJMcsdS:
+	%12 = sub i32 0, 1
+	ret i32 %12
+
+elseif.then.FPJwhxMPRN:
+	%13 = sub i32 0, 1
+	ret i32 %13
+
+elseif.then.QRNGikuYAw:
+	%14 = sub i32 0, 1
+	ret i32 %14
+
+elseif.then.RNjExyVBup:
+	%15 = sub i32 0, 1
+	ret i32 %15
+
+elseif.then.vkYbmivfKj:
+	%16 = sub i32 0, 1
+	ret i32 %16
+
+elseif.then.FWRmKDPHxM:
+	%17 = sub i32 0, 1
+	ret i32 %17
+
+leave.YmevCvZWEI:
+	%18 = load i32, i32* %0
+	%19 = icmp sgt i32 %18, 333
+	br i1 %19, label %elseif.then.yIFuJMcsdS, label %leave.GnbpmTBVRA
+
+leave.GnbpmTBVRA:
+	%20 = load i32, i32* %0
+	%21 = icmp sgt i32 %20, 334
+	br i1 %21, label %elseif.then.FPJwhxMPRN, label %leave.usinmAaVsD
+
+leave.usinmAaVsD:
+	%22 = load i32, i32* %0
+	%23 = icmp sgt i32 %22, 334
+	br i1 %23, label %elseif.then.QRNGikuYAw, label %leave.WOvyDQRdmB
+
+leave.WOvyDQRdmB:
+	%24 = load i32, i32* %0
+	%25 = icmp sgt i32 %24, 334
+	br i1 %25, label %elseif.then.RNjExyVBup, label %leave.jKPBmpMdFX
+
+leave.jKPBmpMdFX:
+	%26 = load i32, i32* %0
+	%27 = icmp sgt i32 %26, 334
+	br i1 %27, label %elseif.then.vkYbmivfKj, label %leave.UyCsJKyzwU
+
+leave.UyCsJKyzwU:
+	%28 = load i32, i32* %0
+	%29 = icmp sgt i32 %28, 334
+	br i1 %29, label %elseif.then.FWRmKDPHxM, label %if.else.ggVQvkNxRB
+
+lastLeave.qeixXjorLR:
+	br label %lastLeave.TfgUcHpDtx
+
+elseif.then.coShcDpbHq:
+	ret i32 6
+
+leave.jEDusExcLX:
+	%30 = load i32, i32* %1
+	%31 = call i32 @tt-TRTrBBBHci(i32 %30)
+	%32 = icmp eq i32 %31, 1
+	br i1 %32, label %elseif.then.coShcDpbHq, label %if.else.ejewltIzzC
+
+lastLeave.TfgUcHpDtx:
+	br label %lastLeave.nBMQKkDlVu
+
+leave.MbUkrvdKxL:
+	%33 = load i32, i32* %2
+	%34 = icmp eq i32 %33, 4
+	br i1 %34, label %elseif.then.CHmLoSGNvI, label %if.else.HdrufQYkhI
+
+lastLeave.nBMQKkDlVu:
+	ret i32 7
+}
+
+define i32 @main() {
+main-TRTrBBBHci:
+	%0 = call i32 @t-TRTrBBBHci(i32 3)
+	%1 = icmp ne i32 %0, 0
+	br i1 %1, label %if.then.TgbMfNayvO, label %if.else.ypKGUDlBJy
+
+if.then.TgbMfNayvO:
+	%2 = getelementptr inbounds [4 x i8], [4 x i8]* @string.literal.dTzKnbWoKb, i32 0, i32 0
+	%3 = getelementptr inbounds [3 x i8], [3 x i8]* @"%s", i32 0, i32 0
+	%4 = call i32 (i8*, ...) @printf(i8* %3, i8* %2)
+	br label %lastLeave.OUBxabVLje
+
+if.else.ypKGUDlBJy:
+	br label %lastLeave.OUBxabVLje
+
+lastLeave.OUBxabVLje:
+	%5 = call i32 @t-TRTrBBBHci(i32 4)
+	%6 = icmp ne i32 %5, 1
+	br i1 %6, label %if.then.TkPXOtQRyf, label %if.else.pvgSUuIeMd
+
+if.then.TkPXOtQRyf:
+	%7 = getelementptr inbounds [5 x i8], [5 x i8]* @string.literal.XEWOyhUkPy, i32 0, i32 0
+	%8 = getelementptr inbounds [3 x i8], [3 x i8]* @"%s", i32 0, i32 0
+	%9 = call i32 (i8*, ...) @printf(i8* %8, i8* %7)
+	br label %lastLeave.DeULvxrOkk
+
+if.else.pvgSUuIeMd:
+	br label %lastLeave.DeULvxrOkk
+
+lastLeave.DeULvxrOkk:
+	%10 = call i32 @t-TRTrBBBHci(i32 5)
+	%11 = icmp ne i32 %10, 2
+	br i1 %11, label %if.then.UsjIdTJLyv, label %if.else.dCZAIREdpq
+
+if.then.UsjIdTJLyv:
+	%12 = getelementptr inbounds [5 x i8], [5 x i8]* @string.literal.VUZiecnGhb, i32 0, i32 0
+	%13 = getelementptr inbounds [3 x i8], [3 x i8]* @"%s", i32 0, i32 0
+	%14 = call i32 (i8*, ...) @printf(i8* %13, i8* %12)
+	br label %lastLeave.InurkLpddW
+
+if.else.dCZAIREdpq:
+	br label %lastLeave.InurkLpddW
+
+lastLeave.InurkLpddW:
+	%15 = call i32 @tt-TRTrBBBHci(i32 3)
+	%16 = icmp ne i32 %15, 0
+	br i1 %16, label %if.then.XnJTrDrTxN, label %if.else.GrSoNwePHn
+
+if.then.XnJTrDrTxN:
+	%17 = getelementptr inbounds [5 x i8], [5 x i8]* @string.literal.hrwstmGuod, i32 0, i32 0
+	%18 = getelementptr inbounds [3 x i8], [3 x i8]* @"%s", i32 0, i32 0
+	%19 = call i32 (i8*, ...) @printf(i8* %18, i8* %17)
+	br label %lastLeave.UKZQhYfbws
+
+if.else.GrSoNwePHn:
+	br label %lastLeave.UKZQhYfbws
+
+lastLeave.UKZQhYfbws:
+	%20 = call i32 @tt-TRTrBBBHci(i32 4)
+	%21 = icmp ne i32 %20, 1
+	br i1 %21, label %if.then.wmmkNeAgbp, label %if.else.lSHeweHvDy
+
+if.then.wmmkNeAgbp:
+	%22 = getelementptr inbounds [5 x i8], [5 x i8]* @string.literal.bCziogedmG, i32 0, i32 0
 	%23 = getelementptr inbounds [3 x i8], [3 x i8]* @"%s", i32 0, i32 0
 	%24 = call i32 (i8*, ...) @printf(i8* %23, i8* %22)
-	br label %lastLeave.MhYqsZNUYM
-
-if.else.qZEegurczU:
-	br label %lastLeave.MhYqsZNUYM
-
-lastLeave.MhYqsZNUYM:
-	%25 = alloca %aStruct-AtjApNeCmQ
-	%26 = getelementptr inbounds %aStruct-AtjApNeCmQ, %aStruct-AtjApNeCmQ* %25, i32 0, i32 0
-	store i32 3, i32* %26
-	%27 = alloca %aStruct-AtjApNeCmQ*
-	store %aStruct-AtjApNeCmQ* %25, %aStruct-AtjApNeCmQ** %27
-	%28 = load %aStruct-AtjApNeCmQ*, %aStruct-AtjApNeCmQ** %27
-	%29 = bitcast %aStruct-AtjApNeCmQ* %28 to i32*
-	%30 = alloca i32*
-	store i32* %29, i32** %30
-	%31 = load i32*, i32** %30
-	%32 = getelementptr inbounds i32, i32* %31, i32 0
-	%33 = load i32, i32* %32
-	%34 = getelementptr inbounds %aStruct-AtjApNeCmQ, %aStruct-AtjApNeCmQ* %25, i32 0, i32 0
-	%35 = load i32, i32* %34
-	%36 = icmp ne i32 %33, %35
-	br i1 %36, label %if.then.STBSDtXxnu, label %if.else.pANGgCCSXJ
-
-if.then.STBSDtXxnu:
-	%37 = getelementptr inbounds [30 x i8], [30 x i8]* @string.literal.QxYslOgoBC, i32 0, i32 0
+	br label %lastLeave.OsCItCKoHu
+
+if.else.lSHeweHvDy:
+	br label %lastLeave.OsCItCKoHu
+
+lastLeave.OsCItCKoHu:
+	%25 = call i32 @tt-TRTrBBBHci(i32 5)
+	%26 = icmp ne i32 %25, 2
+	br i1 %26, label %if.then.nburEuRpwL, label %if.else.XvfNKhkqqw
+
+if.then.nburEuRpwL:
+	%27 = getelementptr inbounds [5 x i8], [5 x i8]* @string.literal.YoQZmpCSKD, i32 0, i32 0
+	%28 = getelementptr inbounds [3 x i8], [3 x i8]* @"%s", i32 0, i32 0
+	%29 = call i32 (i8*, ...) @printf(i8* %28, i8* %27)
+	br label %lastLeave.FVMdaqODIV
+
+if.else.XvfNKhkqqw:
+	br label %lastLeave.FVMdaqODIV
+
+lastLeave.FVMdaqODIV:
+	%30 = call i32 @ttt-TRTrBBBHci(i32 4, i32 3)
+	%31 = icmp ne i32 %30, 5
+	br i1 %31, label %if.then.MKFHfQYPzk, label %if.else.GgaMKlNqcO
+
+if.then.MKFHfQYPzk:
+	%32 = getelementptr inbounds [5 x i8], [5 x i8]* @string.literal.rHjYQjWdXv, i32 0, i32 0
+	%33 = getelementptr inbounds [3 x i8], [3 x i8]* @"%s", i32 0, i32 0
+	%34 = call i32 (i8*, ...) @printf(i8* %33, i8* %32)
+	br label %lastLeave.LGpYOnXTjA
+
+if.else.GgaMKlNqcO:
+	br label %lastLeave.LGpYOnXTjA
+
+lastLeave.LGpYOnXTjA:
+	%35 = call i32 @ttt-TRTrBBBHci(i32 4, i32 4)
+	%36 = icmp ne i32 %35, 6
+	br i1 %36, label %if.then.ZProkKfygK, label %if.else.WQoLbQAbus
+
+if.then.ZProkKfygK:
+	%37 = getelementptr inbounds [5 x i8], [5 x i8]* @string.literal.tGsNdHWGpW, i32 0, i32 0
 	%38 = getelementptr inbounds [3 x i8], [3 x i8]* @"%s", i32 0, i32 0
 	%39 = call i32 (i8*, ...) @printf(i8* %38, i8* %37)
-	br label %lastLeave.CliRnLMZwW
-
-if.else.pANGgCCSXJ:
-	br label %lastLeave.CliRnLMZwW
-
-lastLeave.CliRnLMZwW:
-	%40 = load i32*, i32** %30
-	%41 = bitcast i32* %40 to %aStruct-AtjApNeCmQ*
-	%42 = alloca %aStruct-AtjApNeCmQ
-	%43 = load %aStruct-AtjApNeCmQ, %aStruct-AtjApNeCmQ* %41
-	store %aStruct-AtjApNeCmQ %43, %aStruct-AtjApNeCmQ* %42
-	%44 = getelementptr inbounds %aStruct-AtjApNeCmQ, %aStruct-AtjApNeCmQ* %42, i32 0, i32 0
-	%45 = load i32, i32* %44
-	%46 = getelementptr inbounds %aStruct-AtjApNeCmQ, %aStruct-AtjApNeCmQ* %25, i32 0, i32 0
-	%47 = load i32, i32* %46
-	%48 = icmp ne i32 %45, %47
-	br i1 %48, label %if.then.DsyMcNtWNx, label %if.else.GZqAJBVcXP
-
-if.then.DsyMcNtWNx:
-	%49 = getelementptr inbounds [25 x i8], [25 x i8]* @string.literal.RVoQhxXblh, i32 0, i32 0
-	%50 = getelementptr inbounds [3 x i8], [3 x i8]* @"%s", i32 0, i32 0
-	%51 = call i32 (i8*, ...) @printf(i8* %50, i8* %49)
-	br label %lastLeave.nbdVyMKUlp
-
-if.else.GZqAJBVcXP:
-	br label %lastLeave.nbdVyMKUlp
-
-lastLeave.nbdVyMKUlp:
+	br label %lastLeave.lTVraTjeHD
+
+if.else.WQoLbQAbus:
+	br label %lastLeave.lTVraTjeHD
+
+lastLeave.lTVraTjeHD:
+	%40 = call i32 @ttt-TRTrBBBHci(i32 4, i32 5)
+	%41 = icmp ne i32 %40, 7
+	br i1 %41, label %if.then.KnCawNKKNU, label %if.else.bkvUghdMfZ
+
+if.then.KnCawNKKNU:
+	%42 = getelementptr inbounds [5 x i8], [5 x i8]* @string.literal.FGBAfxkoAG, i32 0, i32 0
+	%43 = getelementptr inbounds [3 x i8], [3 x i8]* @"%s", i32 0, i32 0
+	%44 = call i32 (i8*, ...) @printf(i8* %43, i8* %42)
+	br label %lastLeave.ZtSEVGgCOV
+
+if.else.bkvUghdMfZ:
+	br label %lastLeave.ZtSEVGgCOV
+
+lastLeave.ZtSEVGgCOV:
+	%45 = call i32 @tttt-TRTrBBBHci(i32 4, i32 3)
+	%46 = icmp ne i32 %45, 5
+	br i1 %46, label %if.then.nDlMRezGPE, label %if.else.RUeTGmLaCN
+
+if.then.nDlMRezGPE:
+	%47 = getelementptr inbounds [5 x i8], [5 x i8]* @string.literal.kNphEEmKxb, i32 0, i32 0
+	%48 = getelementptr inbounds [3 x i8], [3 x i8]* @"%s", i32 0, i32 0
+	%49 = call i32 (i8*, ...) @printf(i8* %48, i8* %47)
+	br label %lastLeave.RASyuTZVVy
+
+if.else.RUeTGmLaCN:
+	br label %lastLeave.RASyuTZVVy
+
+lastLeave.RASyuTZVVy:
+	%50 = call i32 @tttt-TRTrBBBHci(i32 4, i32 4)
+	%51 = icmp ne i32 %50, 6
+	br i1 %51, label %if.then.WpTrzlZclD, label %if.else.AVlGZfcHED
+
+if.then.WpTrzlZclD:
+	%52 = getelementptr inbounds [5 x i8], [5 x i8]* @string.literal.YCfTrfufou, i32 0, i32 0
+	%53 = getelementptr inbounds [3 x i8], [3 x i8]* @"%s", i32 0, i32 0
+	%54 = call i32 (i8*, ...) @printf(i8* %53, i8* %52)
+	br label %lastLeave.LhkkYBDkLm
+
+if.else.AVlGZfcHED:
+	br label %lastLeave.LhkkYBDkLm
+
+lastLeave.LhkkYBDkLm:
+	%55 = call i32 @tttt-TRTrBBBHci(i32 4, i32 5)
+	%56 = icmp ne i32 %55, 7
+	br i1 %56, label %if.then.YKvAAbJTrm, label %if.else.XuUKsEDOvA
+
+if.then.YKvAAbJTrm:
+	%57 = getelementptr inbounds [5 x i8], [5 x i8]* @string.literal.sUZACtoQhG, i32 0, i32 0
+	%58 = getelementptr inbounds [3 x i8], [3 x i8]* @"%s", i32 0, i32 0
+	%59 = call i32 (i8*, ...) @printf(i8* %58, i8* %57)
+	br label %lastLeave.clAYaaZAlY
+
+if.else.XuUKsEDOvA:
+	br label %lastLeave.clAYaaZAlY
+
+lastLeave.clAYaaZAlY:
 	ret i32 0
 }
 
diff --git a/internals/tests/exec b/internals/tests/exec
index 32525b95931a41009eb89f60ccf208c29641bd9a..d12bacf51f86b59d0808b147c8be5392e64ce45e 100755
GIT binary patch
literal 16664
zcmeHOYit}>6~1dbjnkxA$0VxrAQ?(hC2c(M8>eZK^<%wbk~ogD#z}xqXFX%@G`l<7
z-Py*Dq7r0^h^n9<3iJ<BiUb7&5<&=7{J~bLHbE36RfWnQWD1qis6eXn2oHHVXXc#E
z_-3t8g!sc;Yv;T7JLlYU=FFYhx!!v}6F)dm6Nv~ewPK&ZR;<BiVkCHeH&p;)qFdYt
z$Iary;vQ(%d7Lkg`2bSCyjimt>xr)gM7t)eRKZO?Ef_gMM6_F~%rEmLjDpSs?K}~+
znP>bBIbdYI;!h!u5<X8fW6%zBBUDn@w-|>gFT;dvhfTC=AiD;#WBdWd$;kP{oZzRM
z@+qSNGAxRB6hgK;Ms_mxlRhK*z;g6$*ZfcX4U=7+;&mfr-0IVUk^LP3J1?IkzZ>vn
z9wC2AT?fJWC#3X>T^T#o)v+sMHfQWyX{vduyQ{gYLoGULo97ziLLWG$5<{b+=B$`S
zj_t9&7Cx9(l)tsD-HpER`Q*ND{&=VJYVqAK)^1<NeV`5MU_pHj3ENmlAE@J>|7W2_
zV;S(8^^2@WEO9`)#wxNt;FK!7z676Jg8vZk4^-(#=sIL@Travt!PT>dodafk%Frk5
zoRP6lTLQ(H&n}TTIM~~#x2bJvXQkfWA@srIA>FhJ)}&o@twQopU&hH<Nh6i9ps&fS
zlcU~sU$v?tW-#LY`2#!xZH$-4M`?q-0<*r8xF3D#tB~dzc*0Sk`;YGzWsT3*OZ+@_
zSRW%fnR9z~zfa&b#B0Lka)1wB_p1TkkKDI-Gr;5c;W8iKalC{j%s`ldFau!*!VH8N
z2s037Ak09u47?xR{C92U-FofWWplfP(4LufYsy!(nV0J?dFtiPp8;Lo_H#H!x5S|K
zU8qf5;J(nl_4kA4u05umdrO=7-Ob@-ymhwqigteQlklEfUiV2*|I>sT-SRol1o&S8
zqn%&&I>PQ-?mBS259{E1MR`8D<t!>*A_V>Kc>0~+K-jUMox7>c{b9d0cdJ&5yrNxO
zaMwZy_fZG+<@t%|mj2uJ7~k2w;~*BLhex%Uy*F@Tt(|+@U8Oy{_a5M{?<kkc*G)LQ
zvTP5uBcBG}75`}e&M6R5Jgrw|%5~AN%$4U_XJ^W_(fHh@2`H8GyPF(r+)dC$X#;33
z)J310n|W{f%tGx;_|lHOwa#982`2)V{PXyr`d}_9*R*mKp}(+%83;2FW+2Q!n1L_@
zVFtnsgc%4k5N06E!2fjy@b|FD#@am!WC4F?+H|vAP6F-(JOlVB;G=-}TPBvs=@Ai`
zYKUxHwY>fUOz@G%-{^1sv0Q!-75bNZzl3dtY6pB~f%k~j4Fjv2J|10ps{X9lzhTcq
z?OVN{4N>+f_<S4m_%}9ah9%5En1L_@VFtnsgc%4k5N06EK$w9r17QaK%NgMHjJ$r4
z*Cu+CGw`*F{dto(0qef~@&>JgT+eb^54n-rJeS+RZIa_$5ev)zyij(qeUTP9^4i5?
zw7Ah<^D4w;lHZHUP`==USV`DKxQ>v4%*1tCAGw?a3OV99W{HQzpkCqr{!#Yh1JYAn
zp!Q9Q4}KZ;;^(}<blGdqll*Vg<~XSP|2gpb@ueK|I@Oe6ifu&!(1wS0Japip6AxW@
z_!u6#@vvKNCi?mwQMQk!N;$Wrw6?45YD;rh$!oSf-PWPDbf~R6NU&5SK9BjV6YrH}
zExbMvkes1}Dx`qxkgMr$2EInD7I_-Kq%IWVFG_qn@q9n9{vcE$V!arO`3zrgT(up6
z|AO#(U|%Z48K|INzQ35qaT^g3E!_{yzX+9T@h^2=KlS=)6wfK#!)>hA&ugCkIw6mP
zUwUS1M4fWm9&7KwCnD~z+&3)63$jKuiH4ZZ&@dP4AtBY)nRfxN_^OMJS3Dl>ve+V8
zi~!#N{d1mK`Z%nKXoP$Y({l&&g5@~qH`YW2KaYG?2pxEgb1>#J{9KtP{v#6qW#U^T
z{`<stO8l$9W1MpQZvd}|JIimepPDAY_Ze&4L>~ItAM+WG^IkaLHQ<3etK=E@1{jCK
zq|g1l2K``uVl<w;|HXlDv)50P=qG*dznl2`C4PkZm-BA`kNvku`G1V~i^M-f0p*Cl
zN<2URiooOfJ}CJ;Py8l{f06iyC4P?hwZwD(FC!0mmh*EJctzY<bl~y4@>2XafPdgl
zb+HT_HP*nlj`ZAE2|S+HBQf8I^DK^z7u;6WfgKA*%GO<DQUFnOOR#2WT-@H>pu1Up
z9QQXALDO{f$&8aSGP>zHg`#ehro_0D&1WpvGS!yq8o0B<){R2JnAWYFTbLFT1tV+e
zW+|JU29rQb2Tga8s%qz8i$&HlZNs&6r{v~KuA0e!*}zE8p|~C&>epeLMgQ@ko<oCu
zK*N3&J+6^d>mLz%;^5)lo`d?~fq|p(q@L{QJs8(T(Jk1yNi}0b??y&7lcx{lQe)16
z6m%i&4~g+Mkh^XDuuQ`>gm=1f|HaW0J$<foB%P2Y>B6a^n@yA)Q<fC8CypO^V$3}D
zlq_)*#UWE0OXSBOT6F5~H-X0D%_q89bo8{5Ght(jbiyZx^67XydteGqc<?aTn|4kw
z6)jW1HM%2|<9!p!!bEApDarjDi;o?iPLG}(#w(dB7AX=JN^^1~S?KNU)y8e%?X!_W
zNcEkzok`2g-jS0}jGnNq@mwOElHDD5j-1Hm`;H#y$Cm+JhrKsE1aMPM)txqrxA#=8
zCT{BS#+&S8Ako`1F?G`ENx&w#;&j$EQh;v3$28ZxfteR-&T%buGFMXb1t)J6-01+7
zD%r46%QlJX=^bpw8_iQs8^yFx&FLJt@X;;!lBcXf(ROl+8al`dR>nXB0XK#13N@c`
z)ky~`t~CWmyv;z#@kXI)rRl~>n_$W<-_*aud<(8azed&`2d9pUJwr%1npL=_LWO%g
z3%72S$Ib_)@I4&965t)gFHQ7-WaRg75_`H_NBk&!@LiehyUCtW0a>u{do*)hPzl-}
zBYVcJtVqb;Z%pI+R?wc`_ZSscB$VyPfd31;dvp9ezhGqlJin0RH^3g}7HrS+55^1R
z7h}XcvpvrnY~b*e*`DV!jQAcHEZ9e|JP8e)Td@5+oggF6%Q$}4V|*IyajwE`p06;r
zkTW@cj^R91&?VdRe2H<E6xqLg{$B$*o)gO}-<R~g$@4_&#`DE>#J|EPXs?hRBQ+}~
z+-Cf`WZyypMvj*|;5Os8B>NcIGvfPVu&`g|z6X_H{QQ2($n$8{m&fl9$-a>l6si!)
z`rKyx38<rgzJ7IVN4OPa!NPXTU4}}~e!JpJ81t-1$a!P>b*QX{58d{+=R35oS=Q$^
z<FCOs8nEa2RsFwde*<iB?6H5I_wc@I-an1w9}D~C>-Yk2c>Zk9`!{EIp|%j)eW)DS
zp7DK<1nv3%57)__pA*~x+cExAvKKMZZ1Hi3nhb2m?HX{79LLY^^Fw6M<AU`u)?ir<
z1ahQa5wU%9h4CwFA4J&)YM!MI`8kH)Lpa7ce$LAZ;5c@uR?6d@es!B9WWTJ4uk(_M
PCwiva*JzLoq^9^6t1M<e

literal 50433
zcmeI)YfKzf6bJA#yFeGVC^cv>wq=b$p()U4qy1ph-BNU+2ozAUO}*u@bhj+Kw7aDA
z5xW*`QjO8AZ@(EOg3*Y!AD~GiZ4+&b(PH{AP1O2IXdA>PK1vhBbLIitX-Q4|U}FB4
z+?hFZ@7y`}cZZL6zq~y5*IXivxH!1p#C0%@=xOrs716C+{alr*^*va=w!E%J?p|5+
zhp)VKRV3pq<Bm!-ls7h9*{nbBz49KJaXR0Y>NJ~`iU+#mX22)=cuSWXlj)SnaFN)&
zG;X9(!niPwO2y(`&9UiQ_VM0cVT{K{dXYGFJeN71)vi=mWNRqWszQ;rC_iBzZ@?U{
z)*Mgb)bY&Q(<gCzjjK|td<{NTR#RPX=y}aW<Fj6DXYrCMwmDpt+89k?n{_-F_tlGc
z#$4hIuBq!Rd5v;4^5P4tBy4$ctQW6wvhuR#tW;}Lyvb;j<80%FtS$*6{yb+bO0`5g
zI-(J)gMGYE!pP5hztzt=r_NFC&3yk=71gWDS5;Ww?yzm1981yUW0kX6^?(mci4w97
zG)%OCPxqMd29Cv1^2y^`dzeVRrMx3VU-Q{5_qe7OxhK`0Yigeye*Ri>yn#D;xXL?9
zyJA~P!=dKV)@|Wdj-}kjRq}8hOa@O~Uh(AK$zZYL(Op~b=6fEl#ygF#U9M$4i9U5K
z;-fx4JtivT`N=p{{Qs9)<jG}RrOn7MpT)G9TsWWlZLxTuqhw_X=M`!;p1zY$GQR&X
z=f>wEGZrr?3%E-AuRQO0*P6I=LV*ATAOHafKmY;|fB*y_009U<00Izz00bZa0SG_<
z0uX=z1Rwwb2tWV=5P$##AOHafKmY;|fB*y_009U<00Izz00bZa0SG|ge=9ImMk8nE
z(8TB*?*wVyA&!&7PIYQ>$H)DXPD)Po&`2;ZaZ}&X{K3AXYS5L`=2_SM5^I_5J|{KE
z^{6xRT^Y|qG{9iVbNqavMiab$a=_KAB@5GOB0=<$yyL3=dA9!jMt|PttM}*qnYo3O
zsO#&=AI$7pSYNc9l8eT6?vr;EX;~LmXq4Q<?Ta)Ta&2Bv@8b3>ZXe}#7q{ngdnV_?
zbDTIjHT7y=59iL~NWaYKewlhd-oiQLVhdL`ZQh_!!}Oe9GINyq_>8$#+49Tmn19XO
z`g;~$vhvH~{3`jqtNFd>IloHHeL-=46`Wrs=V#^bp3cjy=hf%Tzm&y&I5(+7MUo@?
z&zj?5BgZ>Za_sMU{8FD&@i<;ymqeY5^A!X8yH@kqmFeCIH(O-!y8WZ~`FPDZzd0%I
z<E^uGAM+e1cO34M?~3=e4&*raTXW=}l0CQcxk^br%a&K!>(2X(_1eq(%B4swdvxdW
zZrfaA$E_xNZ@HxLhFNQ;Y(l?-0|X!d0SG_<0uX=z1Rwwb2tWV=5P$##AOHafKmY;|
zfB*y_009U<00Izz00bZa0SG_<0uX=z1Rwwb2tWV=5P$##AOHafKmY;|fB*y_009U<
z00RGsKtY$MAVvkPa+DGehGL#rFxnMvjocOYbZ!Yn;$*hj+C7n|*}>Bk^K1=-!?x$m
z*4w4XvnUXN00bZa0SG_<0uX=z1Rwwb2tWV=5P$##AOHafKmY;|fB*y_009U<00Izz
z00bZa0SG_<0uX=z1Rwwb2tWV=5P$##AOHafKmY;|fB*y_009WhF5uy&TCNRTHM8<b
zFX`3=pY!b3-V7q|%uW4S2ggeP*?=~^MN^bc>8c~B0^Na@u6RHN15K@gEmRYZHnpzY
zRvYDC7zk`B_Qf~(I;#U^9c!q*qbU@j#sXR&i}UXfY%B?fxJOgCgm%d2PCBri51()6
zOa0diqWZ5Fbj9eHmPUz$gVJaZA1TdGecGDt$711{jnS25^o3UUNOVoGyRkVOq!U_q
zAh4$Vfymm%4mzWequsyJ-&xh%)<{RRvgU`Y>mK&4ZlSY0<O}+cz4~!LKOWbQ=k()w
zJ`$&7=*abrjFyowEHllxz>Kran9Mj=Vl9V{M*l)RCR)1Oh*z3%l^OdbX7)`9qrF99
zeqW9mKVim8%=mRPt~KKW67%yRGyaleUN>1fy}0=()kDhoQ3%C9{-BIsiBQ*AMK$Xx
zDt#4|Z3+D|v{yCFtbn~KWfAR7DNAZ^N?G9PFY@xYbBBo>^LUEZoOAgeFPk<=jx=uK
zKce+q8@Wp1B|Gw~$3b(A@OnqD)j^XFp0fA+zTksPAGQzP_v6@5Z{EF;Sj8*J?AOOf
z+b=Gr$z6-z-}T-{jnPlewGF489vNwO)HJ3~?L4q^`_pF*J?r1Q_?_#uuPfTWecv<f
z#~y!b?aevGr6m=|5BV1MXZ<ivx9q>~`Bl5WJ9%Nx#h2ThZ!XTb_qUe(wu{;B!4to{
z_0_uFXMf)3I52j-@&9f6_xp$AOTO8?eq?I=#S;%z|MbT2{@%UsXWzdlT0C}YZ_(y|
rJO1^aKlo?P`GqG={!w_c!hL$`vmIlFoAQT>$NkT_e|pY!F23z=moDCk

-- 
2.43.0


From f78be492f8b47a3b4a0a4aaf94573ef8f6c3b121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 60/90] fix: valid code for casts of pointers to unions and
 parameters named like their function

---
 internals/compiler/compiler.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index ccda3d9..3e2bed4 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -646,7 +646,7 @@ func (c *Compiler) compileFunctionDeclaration(name string, funk ast.Function, va
 	llvmFunction := c.compileFunctionType(name, funk)
 
 	// Create a main block to the function
-	c.pushBlock(llvmFunction.NewBlock(funk.GetFunctionType().Name))
+	c.pushBlock(llvmFunction.NewBlock(funk.GetFunctionType().Name + ".entry"))
 
 	// Declare parameters IR
 	for _, param := range llvmFunction.Params {
@@ -1801,7 +1801,8 @@ func (c *Compiler) handleCast(call *ast.BuiltinCall) value.Value {
 	}
 
 	// TODO: Array to integer
-	if types.IsPointer(variable.Type()) && types.IsArray(variable.Type().(*types.PointerType).ElemType) {
+	if types.IsPointer(variable.Type()) && types.IsArray(variable.Type().(*types.PointerType).ElemType) &&
+		!ctypes.IsPointer(call.Parameters[0].GetType()) {
 		// We don't want people to take this pointer and load it into memory
 		// Test this because I'm not sure if this works!
 		c.doNotLoadIntoMemory = true
-- 
2.43.0


From b5f1001c2ef69096305894935db9675c1a2a3efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 61/90] fix: restore outputs that the tests write

---
 internals/tests/.intermediate_output.ll | 502 +++++-------------------
 internals/tests/exec                    | Bin 16664 -> 50433 bytes
 2 files changed, 109 insertions(+), 393 deletions(-)

diff --git a/internals/tests/.intermediate_output.ll b/internals/tests/.intermediate_output.ll
index faa6460..cc3875e 100644
--- a/internals/tests/.intermediate_output.ll
+++ b/internals/tests/.intermediate_output.ll
@@ -1,406 +1,122 @@
-@string.literal.dTzKnbWoKb = global [4 x i8] c"bad\00"
-@"%s" = global [3 x i8] c"%s\00"
-@string.literal.XEWOyhUkPy = global [5 x i8] c"bad2\00"
-@string.literal.VUZiecnGhb = global [5 x i8] c"bad3\00"
-@string.literal.hrwstmGuod = global [5 x i8] c"bad4\00"
-@string.literal.bCziogedmG = global [5 x i8] c"bad5\00"
-@string.literal.YoQZmpCSKD = global [5 x i8] c"bad6\00"
-@string.literal.rHjYQjWdXv = global [5 x i8] c"bad7\00"
-@string.literal.tGsNdHWGpW = global [5 x i8] c"bad8\00"
-@string.literal.FGBAfxkoAG = global [5 x i8] c"bad9\00"
-@string.literal.kNphEEmKxb = global [5 x i8] c"bad7\00"
-@string.literal.YCfTrfufou = global [5 x i8] c"bad8\00"
-@string.literal.sUZACtoQhG = global [5 x i8] c"bad9\00"
-
-define i32 @t-TRTrBBBHci(i32 %e-TRTrBBBHci) {
-t-TRTrBBBHci:
-	%0 = alloca i32
-	store i32 %e-TRTrBBBHci, i32* %0
-	%1 = load i32, i32* %0
-	%2 = icmp eq i32 %1, 3
-	br i1 %2, label %if.then.laRmmQAtJI, label %leave.PKcszPOzDv
-
-if.then.laRmmQAtJI:
-	ret i32 0
-
-if.else.nPxsCEaHtT:
-	ret i32 2
-
-elseif.then.MKsdcphwHp:
-	ret i32 1
-
-leave.PKcszPOzDv:
-	%3 = load i32, i32* %0
-	%4 = icmp eq i32 %3, 4
-	br i1 %4, label %elseif.then.MKsdcphwHp, label %if.else.nPxsCEaHtT
-
-lastLeave.ICmWdLaOOH:
-	unreachable
-}
-
-define i32 @tt-TRTrBBBHci(i32 %e-TRTrBBBHci) {
-tt-TRTrBBBHci:
-	%0 = alloca i32
-	store i32 %e-TRTrBBBHci, i32* %0
-	%1 = load i32, i32* %0
-	%2 = icmp eq i32 %1, 3
-	br i1 %2, label %if.then.DYApprsjmK, label %leave.pCzOftRYeA
-
-if.then.DYApprsjmK:
-	ret i32 0
-
-if.else.xOEPftKNqc:
-	ret i32 2
+%aStruct-AtjApNeCmQ = type { i32, i64 }
 
-elseif.then.ygETSeQDQb:
-	br label %lastLeave.BESYSrOzeN
-
-leave.pCzOftRYeA:
-	%3 = load i32, i32* %0
-	%4 = icmp eq i32 %3, 4
-	br i1 %4, label %elseif.then.ygETSeQDQb, label %if.else.xOEPftKNqc
-
-lastLeave.BESYSrOzeN:
-	ret i32 1
-}
-
-define i32 @ttt-TRTrBBBHci(i32 %e-TRTrBBBHci, i32 %j-TRTrBBBHci) {
-ttt-TRTrBBBHci:
-	%0 = alloca i32
-	%1 = alloca i32
-	store i32 %e-TRTrBBBHci, i32* %1
-	store i32 %j-TRTrBBBHci, i32* %0
+@string.literal.xeeQEFnZXm = global [1 x i8] c"\00"
+@"%u %s" = global [6 x i8] c"%u %s\00"
+@string.literal.HCbUNRUAKc = global [1 x i8] c"\00"
+@"%d %s" = global [6 x i8] c"%d %s\00"
+@string.literal.HkHgHpLbfX = global [21 x i8] c"this shouldn't print\00"
+@"%s" = global [3 x i8] c"%s\00"
+@string.literal.QxYslOgoBC = global [30 x i8] c"this should not print as well\00"
+@string.literal.RVoQhxXblh = global [25 x i8] c"this shouldnt print!!!!!\00"
+
+define i32 @loadByPointer-AtjApNeCmQ(i32* %i-AtjApNeCmQ) {
+loadByPointer-AtjApNeCmQ:
+	%0 = alloca i32*
+	store i32* %i-AtjApNeCmQ, i32** %0
+	%1 = load i32*, i32** %0
 	%2 = load i32, i32* %1
-	%3 = icmp eq i32 %2, 3
-	br i1 %3, label %if.then.CfXIoVCVMz, label %leave.PzHQFroPOz
-
-if.then.CfXIoVCVMz:
-	ret i32 0
-
-if.else.KuAocYrlOm:
-	ret i32 2
-
-elseif.then.aoCypbkVpI:
-	%4 = load i32, i32* %0
-	%5 = call i32 @tt-TRTrBBBHci(i32 %4)
-	%6 = icmp eq i32 %5, 0
-	br i1 %6, label %if.then.rAoKCaHUWl, label %leave.fRNQGPLLbL
-
-if.then.rAoKCaHUWl:
-	ret i32 5
-
-if.else.DRxFcsdogk:
-	ret i32 7
-
-elseif.then.BaOkWFDzdD:
-	ret i32 6
-
-leave.fRNQGPLLbL:
-	%7 = load i32, i32* %0
-	%8 = call i32 @tt-TRTrBBBHci(i32 %7)
-	%9 = icmp eq i32 %8, 1
-	br i1 %9, label %elseif.then.BaOkWFDzdD, label %if.else.DRxFcsdogk
-
-lastLeave.slFOgjbbsK:
-	unreachable
-
-leave.PzHQFroPOz:
-	%10 = load i32, i32* %1
-	%11 = icmp eq i32 %10, 4
-	br i1 %11, label %elseif.then.aoCypbkVpI, label %if.else.KuAocYrlOm
-
-lastLeave.ctdcyYgznX:
-	unreachable
+	ret i32 %2
 }
 
-define i32 @tttt-TRTrBBBHci(i32 %e-TRTrBBBHci, i32 %j-TRTrBBBHci) {
-tttt-TRTrBBBHci:
-	%0 = alloca i32
+define i32 @main() {
+main:
+	%0 = trunc i64 u0xFFFFFF3C to i32
 	%1 = alloca i32
-	%2 = alloca i32
-	store i32 %e-TRTrBBBHci, i32* %2
-	store i32 %j-TRTrBBBHci, i32* %1
-	%3 = load i32, i32* %2
-	%4 = icmp eq i32 %3, 3
-	br i1 %4, label %if.then.nvKvCYKEDi, label %leave.MbUkrvdKxL
-
-if.then.nvKvCYKEDi:
-	ret i32 0
-
-if.else.HdrufQYkhI:
-	ret i32 2
-
-elseif.then.CHmLoSGNvI:
+	store i32 %0, i32* %1
+	%2 = load i32, i32* %1
+	%3 = add i32 %2, 100
+	store i32 %3, i32* %1
+	%4 = load i32, i32* %1
 	%5 = load i32, i32* %1
-	%6 = call i32 @tt-TRTrBBBHci(i32 %5)
-	%7 = icmp eq i32 %6, 0
-	br i1 %7, label %if.then.hotsoJDAaa, label %leave.jEDusExcLX
-
-if.then.hotsoJDAaa:
-	ret i32 5
-
-if.else.ejewltIzzC:
-	%8 = add i32 3, 3
-	store i32 %8, i32* %0
-	%9 = load i32, i32* %0
-	%10 = icmp sgt i32 %9, 322
-	br i1 %10, label %if.then.ovajIvsgan, label %leave.YmevCvZWEI
-
-if.then.ovajIvsgan:
-	%11 = sub i32 0, 1
-	ret i32 %11
-
-if.else.ggVQvkNxRB:
-	br label %lastLeave.qeixXjorLR
-
-elseif.then.yIFuJMcsdS:
-	%12 = sub i32 0, 1
-	ret i32 %12
-
-elseif.then.FPJwhxMPRN:
-	%13 = sub i32 0, 1
-	ret i32 %13
-
-elseif.then.QRNGikuYAw:
-	%14 = sub i32 0, 1
-	ret i32 %14
-
-elseif.then.RNjExyVBup:
-	%15 = sub i32 0, 1
-	ret i32 %15
-
-elseif.then.vkYbmivfKj:
-	%16 = sub i32 0, 1
-	ret i32 %16
-
-elseif.then.FWRmKDPHxM:
-	%17 = sub i32 0, 1
-	ret i32 %17
-
-leave.YmevCvZWEI:
-	%18 = load i32, i32* %0
-	%19 = icmp sgt i32 %18, 333
-	br i1 %19, label %elseif.then.yIFuJMcsdS, label %leave.GnbpmTBVRA
-
-leave.GnbpmTBVRA:
-	%20 = load i32, i32* %0
-	%21 = icmp sgt i32 %20, 334
-	br i1 %21, label %elseif.then.FPJwhxMPRN, label %leave.usinmAaVsD
-
-leave.usinmAaVsD:
-	%22 = load i32, i32* %0
-	%23 = icmp sgt i32 %22, 334
-	br i1 %23, label %elseif.then.QRNGikuYAw, label %leave.WOvyDQRdmB
-
-leave.WOvyDQRdmB:
-	%24 = load i32, i32* %0
-	%25 = icmp sgt i32 %24, 334
-	br i1 %25, label %elseif.then.RNjExyVBup, label %leave.jKPBmpMdFX
-
-leave.jKPBmpMdFX:
-	%26 = load i32, i32* %0
-	%27 = icmp sgt i32 %26, 334
-	br i1 %27, label %elseif.then.vkYbmivfKj, label %leave.UyCsJKyzwU
-
-leave.UyCsJKyzwU:
-	%28 = load i32, i32* %0
-	%29 = icmp sgt i32 %28, 334
-	br i1 %29, label %elseif.then.FWRmKDPHxM, label %if.else.ggVQvkNxRB
-
-lastLeave.qeixXjorLR:
-	br label %lastLeave.TfgUcHpDtx
-
-elseif.then.coShcDpbHq:
-	ret i32 6
-
-leave.jEDusExcLX:
-	%30 = load i32, i32* %1
-	%31 = call i32 @tt-TRTrBBBHci(i32 %30)
-	%32 = icmp eq i32 %31, 1
-	br i1 %32, label %elseif.then.coShcDpbHq, label %if.else.ejewltIzzC
-
-lastLeave.TfgUcHpDtx:
-	br label %lastLeave.nBMQKkDlVu
-
-leave.MbUkrvdKxL:
-	%33 = load i32, i32* %2
-	%34 = icmp eq i32 %33, 4
-	br i1 %34, label %elseif.then.CHmLoSGNvI, label %if.else.HdrufQYkhI
-
-lastLeave.nBMQKkDlVu:
-	ret i32 7
-}
-
-define i32 @main() {
-main-TRTrBBBHci:
-	%0 = call i32 @t-TRTrBBBHci(i32 3)
-	%1 = icmp ne i32 %0, 0
-	br i1 %1, label %if.then.TgbMfNayvO, label %if.else.ypKGUDlBJy
-
-if.then.TgbMfNayvO:
-	%2 = getelementptr inbounds [4 x i8], [4 x i8]* @string.literal.dTzKnbWoKb, i32 0, i32 0
-	%3 = getelementptr inbounds [3 x i8], [3 x i8]* @"%s", i32 0, i32 0
-	%4 = call i32 (i8*, ...) @printf(i8* %3, i8* %2)
-	br label %lastLeave.OUBxabVLje
-
-if.else.ypKGUDlBJy:
-	br label %lastLeave.OUBxabVLje
-
-lastLeave.OUBxabVLje:
-	%5 = call i32 @t-TRTrBBBHci(i32 4)
-	%6 = icmp ne i32 %5, 1
-	br i1 %6, label %if.then.TkPXOtQRyf, label %if.else.pvgSUuIeMd
-
-if.then.TkPXOtQRyf:
-	%7 = getelementptr inbounds [5 x i8], [5 x i8]* @string.literal.XEWOyhUkPy, i32 0, i32 0
-	%8 = getelementptr inbounds [3 x i8], [3 x i8]* @"%s", i32 0, i32 0
-	%9 = call i32 (i8*, ...) @printf(i8* %8, i8* %7)
-	br label %lastLeave.DeULvxrOkk
-
-if.else.pvgSUuIeMd:
-	br label %lastLeave.DeULvxrOkk
-
-lastLeave.DeULvxrOkk:
-	%10 = call i32 @t-TRTrBBBHci(i32 5)
-	%11 = icmp ne i32 %10, 2
-	br i1 %11, label %if.then.UsjIdTJLyv, label %if.else.dCZAIREdpq
-
-if.then.UsjIdTJLyv:
-	%12 = getelementptr inbounds [5 x i8], [5 x i8]* @string.literal.VUZiecnGhb, i32 0, i32 0
-	%13 = getelementptr inbounds [3 x i8], [3 x i8]* @"%s", i32 0, i32 0
-	%14 = call i32 (i8*, ...) @printf(i8* %13, i8* %12)
-	br label %lastLeave.InurkLpddW
-
-if.else.dCZAIREdpq:
-	br label %lastLeave.InurkLpddW
-
-lastLeave.InurkLpddW:
-	%15 = call i32 @tt-TRTrBBBHci(i32 3)
-	%16 = icmp ne i32 %15, 0
-	br i1 %16, label %if.then.XnJTrDrTxN, label %if.else.GrSoNwePHn
-
-if.then.XnJTrDrTxN:
-	%17 = getelementptr inbounds [5 x i8], [5 x i8]* @string.literal.hrwstmGuod, i32 0, i32 0
-	%18 = getelementptr inbounds [3 x i8], [3 x i8]* @"%s", i32 0, i32 0
-	%19 = call i32 (i8*, ...) @printf(i8* %18, i8* %17)
-	br label %lastLeave.UKZQhYfbws
-
-if.else.GrSoNwePHn:
-	br label %lastLeave.UKZQhYfbws
-
-lastLeave.UKZQhYfbws:
-	%20 = call i32 @tt-TRTrBBBHci(i32 4)
-	%21 = icmp ne i32 %20, 1
-	br i1 %21, label %if.then.wmmkNeAgbp, label %if.else.lSHeweHvDy
-
-if.then.wmmkNeAgbp:
-	%22 = getelementptr inbounds [5 x i8], [5 x i8]* @string.literal.bCziogedmG, i32 0, i32 0
+	%6 = icmp eq i32 %4, %5
+	br i1 %6, label %if.then.EeRDlKSedw, label %if.else.TswFZYlWrr
+
+if.then.EeRDlKSedw:
+	%7 = load i32, i32* %1
+	%8 = getelementptr inbounds [1 x i8], [1 x i8]* @string.literal.xeeQEFnZXm, i32 0, i32 0
+	%9 = getelementptr inbounds [6 x i8], [6 x i8]* @"%u %s", i32 0, i32 0
+	%10 = call i32 (i8*, ...) @printf(i8* %9, i32 %7, i8* %8)
+	%11 = load i32, i32* %1
+	%12 = getelementptr inbounds [1 x i8], [1 x i8]* @string.literal.HCbUNRUAKc, i32 0, i32 0
+	%13 = getelementptr inbounds [6 x i8], [6 x i8]* @"%d %s", i32 0, i32 0
+	%14 = call i32 (i8*, ...) @printf(i8* %13, i32 %11, i8* %12)
+	br label %lastLeave.jvFySGenHV
+
+if.else.TswFZYlWrr:
+	br label %lastLeave.jvFySGenHV
+
+lastLeave.jvFySGenHV:
+	%15 = alloca i32
+	store i32 3, i32* %15
+	%16 = alloca i32*
+	store i32* %15, i32** %16
+	%17 = load i32*, i32** %16
+	%18 = call i32 @loadByPointer-AtjApNeCmQ(i32* %17)
+	%19 = alloca i32
+	store i32 %18, i32* %19
+	%20 = load i32, i32* %19
+	%21 = icmp ne i32 %20, 3
+	br i1 %21, label %if.then.SlWpmWawUr, label %if.else.qZEegurczU
+
+if.then.SlWpmWawUr:
+	%22 = getelementptr inbounds [21 x i8], [21 x i8]* @string.literal.HkHgHpLbfX, i32 0, i32 0
 	%23 = getelementptr inbounds [3 x i8], [3 x i8]* @"%s", i32 0, i32 0
 	%24 = call i32 (i8*, ...) @printf(i8* %23, i8* %22)
-	br label %lastLeave.OsCItCKoHu
-
-if.else.lSHeweHvDy:
-	br label %lastLeave.OsCItCKoHu
-
-lastLeave.OsCItCKoHu:
-	%25 = call i32 @tt-TRTrBBBHci(i32 5)
-	%26 = icmp ne i32 %25, 2
-	br i1 %26, label %if.then.nburEuRpwL, label %if.else.XvfNKhkqqw
-
-if.then.nburEuRpwL:
-	%27 = getelementptr inbounds [5 x i8], [5 x i8]* @string.literal.YoQZmpCSKD, i32 0, i32 0
-	%28 = getelementptr inbounds [3 x i8], [3 x i8]* @"%s", i32 0, i32 0
-	%29 = call i32 (i8*, ...) @printf(i8* %28, i8* %27)
-	br label %lastLeave.FVMdaqODIV
-
-if.else.XvfNKhkqqw:
-	br label %lastLeave.FVMdaqODIV
-
-lastLeave.FVMdaqODIV:
-	%30 = call i32 @ttt-TRTrBBBHci(i32 4, i32 3)
-	%31 = icmp ne i32 %30, 5
-	br i1 %31, label %if.then.MKFHfQYPzk, label %if.else.GgaMKlNqcO
-
-if.then.MKFHfQYPzk:
-	%32 = getelementptr inbounds [5 x i8], [5 x i8]* @string.literal.rHjYQjWdXv, i32 0, i32 0
-	%33 = getelementptr inbounds [3 x i8], [3 x i8]* @"%s", i32 0, i32 0
-	%34 = call i32 (i8*, ...) @printf(i8* %33, i8* %32)
-	br label %lastLeave.LGpYOnXTjA
-
-if.else.GgaMKlNqcO:
-	br label %lastLeave.LGpYOnXTjA
-
-lastLeave.LGpYOnXTjA:
-	%35 = call i32 @ttt-TRTrBBBHci(i32 4, i32 4)
-	%36 = icmp ne i32 %35, 6
-	br i1 %36, label %if.then.ZProkKfygK, label %if.else.WQoLbQAbus
-
-if.then.ZProkKfygK:
-	%37 = getelementptr inbounds [5 x i8], [5 x i8]* @string.literal.tGsNdHWGpW, i32 0, i32 0
+	br label %lastLeave.MhYqsZNUYM
+
+if.else.qZEegurczU:
+	br label %lastLeave.MhYqsZNUYM
+
+lastLeave.MhYqsZNUYM:
+	%25 = alloca %aStruct-AtjApNeCmQ
+	%26 = getelementptr inbounds %aStruct-AtjApNeCmQ, %aStruct-AtjApNeCmQ* %25, i32 0, i32 0
+	store i32 3, i32* %26
+	%27 = alloca %aStruct-AtjApNeCmQ*
+	store %aStruct-AtjApNeCmQ* %25, %aStruct-AtjApNeCmQ** %27
+	%28 = load %aStruct-AtjApNeCmQ*, %aStruct-AtjApNeCmQ** %27
+	%29 = bitcast %aStruct-AtjApNeCmQ* %28 to i32*
+	%30 = alloca i32*
+	store i32* %29, i32** %30
+	%31 = load i32*, i32** %30
+	%32 = getelementptr inbounds i32, i32* %31, i32 0
+	%33 = load i32, i32* %32
+	%34 = getelementptr inbounds %aStruct-AtjApNeCmQ, %aStruct-AtjApNeCmQ* %25, i32 0, i32 0
+	%35 = load i32, i32* %34
+	%36 = icmp ne i32 %33, %35
+	br i1 %36, label %if.then.STBSDtXxnu, label %if.else.pANGgCCSXJ
+
+if.then.STBSDtXxnu:
+	%37 = getelementptr inbounds [30 x i8], [30 x i8]* @string.literal.QxYslOgoBC, i32 0, i32 0
 	%38 = getelementptr inbounds [3 x i8], [3 x i8]* @"%s", i32 0, i32 0
 	%39 = call i32 (i8*, ...) @printf(i8* %38, i8* %37)
-	br label %lastLeave.lTVraTjeHD
-
-if.else.WQoLbQAbus:
-	br label %lastLeave.lTVraTjeHD
-
-lastLeave.lTVraTjeHD:
-	%40 = call i32 @ttt-TRTrBBBHci(i32 4, i32 5)
-	%41 = icmp ne i32 %40, 7
-	br i1 %41, label %if.then.KnCawNKKNU, label %if.else.bkvUghdMfZ
-
-if.then.KnCawNKKNU:
-	%42 = getelementptr inbounds [5 x i8], [5 x i8]* @string.literal.FGBAfxkoAG, i32 0, i32 0
-	%43 = getelementptr inbounds [3 x i8], [3 x i8]* @"%s", i32 0, i32 0
-	%44 = call i32 (i8*, ...) @printf(i8* %43, i8* %42)
-	br label %lastLeave.ZtSEVGgCOV
-
-if.else.bkvUghdMfZ:
-	br label %lastLeave.ZtSEVGgCOV
-
-lastLeave.ZtSEVGgCOV:
-	%45 = call i32 @tttt-TRTrBBBHci(i32 4, i32 3)
-	%46 = icmp ne i32 %45, 5
-	br i1 %46, label %if.then.nDlMRezGPE, label %if.else.RUeTGmLaCN
-
-if.then.nDlMRezGPE:
-	%47 = getelementptr inbounds [5 x i8], [5 x i8]* @string.literal.kNphEEmKxb, i32 0, i32 0
-	%48 = getelementptr inbounds [3 x i8], [3 x i8]* @"%s", i32 0, i32 0
-	%49 = call i32 (i8*, ...) @printf(i8* %48, i8* %47)
-	br label %lastLeave.RASyuTZVVy
-
-if.else.RUeTGmLaCN:
-	br label %lastLeave.RASyuTZVVy
-
-lastLeave.RASyuTZVVy:
-	%50 = call i32 @tttt-TRTrBBBHci(i32 4, i32 4)
-	%51 = icmp ne i32 %50, 6
-	br i1 %51, label %if.then.WpTrzlZclD, label %if.else.AVlGZfcHED
-
-if.then.WpTrzlZclD:
-	%52 = getelementptr inbounds [5 x i8], [5 x i8]* @string.literal.YCfTrfufou, i32 0, i32 0
-	%53 = getelementptr inbounds [3 x i8], [3 x i8]* @"%s", i32 0, i32 0
-	%54 = call i32 (i8*, ...) @printf(i8* %53, i8* %52)
-	br label %lastLeave.LhkkYBDkLm
-
-if.else.AVlGZfcHED:
-	br label %lastLeave.LhkkYBDkLm
-
-lastLeave.LhkkYBDkLm:
-	%55 = call i32 @tttt-TRTrBBBHci(i32 4, i32 5)
-	%56 = icmp ne i32 %55, 7
-	br i1 %56, label %if.then.YKvAAbJTrm, label %if.else.XuUKsEDOvA
-
-if.then.YKvAAbJTrm:
-	%57 = getelementptr inbounds [5 x i8], [5 x i8]* @string.literal.sUZACtoQhG, i32 0, i32 0
-	%58 = getelementptr inbounds [3 x i8], [3 x i8]* @"%s", i32 0, i32 0
-	%59 = call i32 (i8*, ...) @printf(i8* %58, i8* %57)
-	br label %lastLeave.clAYaaZAlY
-
-if.else.XuUKsEDOvA:
-	br label %lastLeave.clAYaaZAlY
-
-lastLeave.clAYaaZAlY:
+	br label %lastLeave.CliRnLMZwW
+
+if.else.pANGgCCSXJ:
+	br label %lastLeave.CliRnLMZwW
+
+lastLeave.CliRnLMZwW:
+	%40 = load i32*, i32** %30
+	%41 = bitcast i32* %40 to %aStruct-AtjApNeCmQ*
+	%42 = alloca %aStruct-AtjApNeCmQ
+	%43 = load %aStruct-AtjApNeCmQ, %aStruct-AtjApNeCmQ* %41
+	store %aStruct-AtjApNeCmQ %43, %aStruct-AtjApNeCmQ* %42
+	%44 = getelementptr inbounds %aStruct-AtjApNeCmQ, %aStruct-AtjApNeCmQ* %42, i32 0, i32 0
+	%45 = load i32, i32* %44
+	%46 = getelementptr inbounds %aStruct-AtjApNeCmQ, %aStruct-AtjApNeCmQ* %25, i32 0, i32 0
+	%47 = load i32, i32* %46
+	%48 = icmp ne i32 %45, %47
+	br i1 %48, label %if.then.DsyMcNtWNx, label %if.else.GZqAJBVcXP
+
+if.then.DsyMcNtWNx:
+	%49 = getelementptr inbounds [25 x i8], [25 x i8]* @string.literal.RVoQhxXblh, i32 0, i32 0
+	%50 = getelementptr inbounds [3 x i8], [3 x i8]* @"%s", i32 0, i32 0
+	%51 = call i32 (i8*, ...) @printf(i8* %50, i8* %49)
+	br label %lastLeave.nbdVyMKUlp
+
+if.else.GZqAJBVcXP:
+	br label %lastLeave.nbdVyMKUlp
+
+lastLeave.nbdVyMKUlp:
 	ret i32 0
 }
 
diff --git a/internals/tests/exec b/internals/tests/exec
index d12bacf51f86b59d0808b147c8be5392e64ce45e..32525b95931a41009eb89f60ccf208c29641bd9a 100755
GIT binary patch
literal 50433
zcmeI)YfKzf6bJA#yFeGVC^cv>wq=b$p()U4qy1ph-BNU+2ozAUO}*u@bhj+Kw7aDA
z5xW*`QjO8AZ@(EOg3*Y!AD~GiZ4+&b(PH{AP1O2IXdA>PK1vhBbLIitX-Q4|U}FB4
z+?hFZ@7y`}cZZL6zq~y5*IXivxH!1p#C0%@=xOrs716C+{alr*^*va=w!E%J?p|5+
zhp)VKRV3pq<Bm!-ls7h9*{nbBz49KJaXR0Y>NJ~`iU+#mX22)=cuSWXlj)SnaFN)&
zG;X9(!niPwO2y(`&9UiQ_VM0cVT{K{dXYGFJeN71)vi=mWNRqWszQ;rC_iBzZ@?U{
z)*Mgb)bY&Q(<gCzjjK|td<{NTR#RPX=y}aW<Fj6DXYrCMwmDpt+89k?n{_-F_tlGc
z#$4hIuBq!Rd5v;4^5P4tBy4$ctQW6wvhuR#tW;}Lyvb;j<80%FtS$*6{yb+bO0`5g
zI-(J)gMGYE!pP5hztzt=r_NFC&3yk=71gWDS5;Ww?yzm1981yUW0kX6^?(mci4w97
zG)%OCPxqMd29Cv1^2y^`dzeVRrMx3VU-Q{5_qe7OxhK`0Yigeye*Ri>yn#D;xXL?9
zyJA~P!=dKV)@|Wdj-}kjRq}8hOa@O~Uh(AK$zZYL(Op~b=6fEl#ygF#U9M$4i9U5K
z;-fx4JtivT`N=p{{Qs9)<jG}RrOn7MpT)G9TsWWlZLxTuqhw_X=M`!;p1zY$GQR&X
z=f>wEGZrr?3%E-AuRQO0*P6I=LV*ATAOHafKmY;|fB*y_009U<00Izz00bZa0SG_<
z0uX=z1Rwwb2tWV=5P$##AOHafKmY;|fB*y_009U<00Izz00bZa0SG|ge=9ImMk8nE
z(8TB*?*wVyA&!&7PIYQ>$H)DXPD)Po&`2;ZaZ}&X{K3AXYS5L`=2_SM5^I_5J|{KE
z^{6xRT^Y|qG{9iVbNqavMiab$a=_KAB@5GOB0=<$yyL3=dA9!jMt|PttM}*qnYo3O
zsO#&=AI$7pSYNc9l8eT6?vr;EX;~LmXq4Q<?Ta)Ta&2Bv@8b3>ZXe}#7q{ngdnV_?
zbDTIjHT7y=59iL~NWaYKewlhd-oiQLVhdL`ZQh_!!}Oe9GINyq_>8$#+49Tmn19XO
z`g;~$vhvH~{3`jqtNFd>IloHHeL-=46`Wrs=V#^bp3cjy=hf%Tzm&y&I5(+7MUo@?
z&zj?5BgZ>Za_sMU{8FD&@i<;ymqeY5^A!X8yH@kqmFeCIH(O-!y8WZ~`FPDZzd0%I
z<E^uGAM+e1cO34M?~3=e4&*raTXW=}l0CQcxk^br%a&K!>(2X(_1eq(%B4swdvxdW
zZrfaA$E_xNZ@HxLhFNQ;Y(l?-0|X!d0SG_<0uX=z1Rwwb2tWV=5P$##AOHafKmY;|
zfB*y_009U<00Izz00bZa0SG_<0uX=z1Rwwb2tWV=5P$##AOHafKmY;|fB*y_009U<
z00RGsKtY$MAVvkPa+DGehGL#rFxnMvjocOYbZ!Yn;$*hj+C7n|*}>Bk^K1=-!?x$m
z*4w4XvnUXN00bZa0SG_<0uX=z1Rwwb2tWV=5P$##AOHafKmY;|fB*y_009U<00Izz
z00bZa0SG_<0uX=z1Rwwb2tWV=5P$##AOHafKmY;|fB*y_009WhF5uy&TCNRTHM8<b
zFX`3=pY!b3-V7q|%uW4S2ggeP*?=~^MN^bc>8c~B0^Na@u6RHN15K@gEmRYZHnpzY
zRvYDC7zk`B_Qf~(I;#U^9c!q*qbU@j#sXR&i}UXfY%B?fxJOgCgm%d2PCBri51()6
zOa0diqWZ5Fbj9eHmPUz$gVJaZA1TdGecGDt$711{jnS25^o3UUNOVoGyRkVOq!U_q
zAh4$Vfymm%4mzWequsyJ-&xh%)<{RRvgU`Y>mK&4ZlSY0<O}+cz4~!LKOWbQ=k()w
zJ`$&7=*abrjFyowEHllxz>Kran9Mj=Vl9V{M*l)RCR)1Oh*z3%l^OdbX7)`9qrF99
zeqW9mKVim8%=mRPt~KKW67%yRGyaleUN>1fy}0=()kDhoQ3%C9{-BIsiBQ*AMK$Xx
zDt#4|Z3+D|v{yCFtbn~KWfAR7DNAZ^N?G9PFY@xYbBBo>^LUEZoOAgeFPk<=jx=uK
zKce+q8@Wp1B|Gw~$3b(A@OnqD)j^XFp0fA+zTksPAGQzP_v6@5Z{EF;Sj8*J?AOOf
z+b=Gr$z6-z-}T-{jnPlewGF489vNwO)HJ3~?L4q^`_pF*J?r1Q_?_#uuPfTWecv<f
z#~y!b?aevGr6m=|5BV1MXZ<ivx9q>~`Bl5WJ9%Nx#h2ThZ!XTb_qUe(wu{;B!4to{
z_0_uFXMf)3I52j-@&9f6_xp$AOTO8?eq?I=#S;%z|MbT2{@%UsXWzdlT0C}YZ_(y|
rJO1^aKlo?P`GqG={!w_c!hL$`vmIlFoAQT>$NkT_e|pY!F23z=moDCk

literal 16664
zcmeHOYit}>6~1dbjnkxA$0VxrAQ?(hC2c(M8>eZK^<%wbk~ogD#z}xqXFX%@G`l<7
z-Py*Dq7r0^h^n9<3iJ<BiUb7&5<&=7{J~bLHbE36RfWnQWD1qis6eXn2oHHVXXc#E
z_-3t8g!sc;Yv;T7JLlYU=FFYhx!!v}6F)dm6Nv~ewPK&ZR;<BiVkCHeH&p;)qFdYt
z$Iary;vQ(%d7Lkg`2bSCyjimt>xr)gM7t)eRKZO?Ef_gMM6_F~%rEmLjDpSs?K}~+
znP>bBIbdYI;!h!u5<X8fW6%zBBUDn@w-|>gFT;dvhfTC=AiD;#WBdWd$;kP{oZzRM
z@+qSNGAxRB6hgK;Ms_mxlRhK*z;g6$*ZfcX4U=7+;&mfr-0IVUk^LP3J1?IkzZ>vn
z9wC2AT?fJWC#3X>T^T#o)v+sMHfQWyX{vduyQ{gYLoGULo97ziLLWG$5<{b+=B$`S
zj_t9&7Cx9(l)tsD-HpER`Q*ND{&=VJYVqAK)^1<NeV`5MU_pHj3ENmlAE@J>|7W2_
zV;S(8^^2@WEO9`)#wxNt;FK!7z676Jg8vZk4^-(#=sIL@Travt!PT>dodafk%Frk5
zoRP6lTLQ(H&n}TTIM~~#x2bJvXQkfWA@srIA>FhJ)}&o@twQopU&hH<Nh6i9ps&fS
zlcU~sU$v?tW-#LY`2#!xZH$-4M`?q-0<*r8xF3D#tB~dzc*0Sk`;YGzWsT3*OZ+@_
zSRW%fnR9z~zfa&b#B0Lka)1wB_p1TkkKDI-Gr;5c;W8iKalC{j%s`ldFau!*!VH8N
z2s037Ak09u47?xR{C92U-FofWWplfP(4LufYsy!(nV0J?dFtiPp8;Lo_H#H!x5S|K
zU8qf5;J(nl_4kA4u05umdrO=7-Ob@-ymhwqigteQlklEfUiV2*|I>sT-SRol1o&S8
zqn%&&I>PQ-?mBS259{E1MR`8D<t!>*A_V>Kc>0~+K-jUMox7>c{b9d0cdJ&5yrNxO
zaMwZy_fZG+<@t%|mj2uJ7~k2w;~*BLhex%Uy*F@Tt(|+@U8Oy{_a5M{?<kkc*G)LQ
zvTP5uBcBG}75`}e&M6R5Jgrw|%5~AN%$4U_XJ^W_(fHh@2`H8GyPF(r+)dC$X#;33
z)J310n|W{f%tGx;_|lHOwa#982`2)V{PXyr`d}_9*R*mKp}(+%83;2FW+2Q!n1L_@
zVFtnsgc%4k5N06E!2fjy@b|FD#@am!WC4F?+H|vAP6F-(JOlVB;G=-}TPBvs=@Ai`
zYKUxHwY>fUOz@G%-{^1sv0Q!-75bNZzl3dtY6pB~f%k~j4Fjv2J|10ps{X9lzhTcq
z?OVN{4N>+f_<S4m_%}9ah9%5En1L_@VFtnsgc%4k5N06EK$w9r17QaK%NgMHjJ$r4
z*Cu+CGw`*F{dto(0qef~@&>JgT+eb^54n-rJeS+RZIa_$5ev)zyij(qeUTP9^4i5?
zw7Ah<^D4w;lHZHUP`==USV`DKxQ>v4%*1tCAGw?a3OV99W{HQzpkCqr{!#Yh1JYAn
zp!Q9Q4}KZ;;^(}<blGdqll*Vg<~XSP|2gpb@ueK|I@Oe6ifu&!(1wS0Japip6AxW@
z_!u6#@vvKNCi?mwQMQk!N;$Wrw6?45YD;rh$!oSf-PWPDbf~R6NU&5SK9BjV6YrH}
zExbMvkes1}Dx`qxkgMr$2EInD7I_-Kq%IWVFG_qn@q9n9{vcE$V!arO`3zrgT(up6
z|AO#(U|%Z48K|INzQ35qaT^g3E!_{yzX+9T@h^2=KlS=)6wfK#!)>hA&ugCkIw6mP
zUwUS1M4fWm9&7KwCnD~z+&3)63$jKuiH4ZZ&@dP4AtBY)nRfxN_^OMJS3Dl>ve+V8
zi~!#N{d1mK`Z%nKXoP$Y({l&&g5@~qH`YW2KaYG?2pxEgb1>#J{9KtP{v#6qW#U^T
z{`<stO8l$9W1MpQZvd}|JIimepPDAY_Ze&4L>~ItAM+WG^IkaLHQ<3etK=E@1{jCK
zq|g1l2K``uVl<w;|HXlDv)50P=qG*dznl2`C4PkZm-BA`kNvku`G1V~i^M-f0p*Cl
zN<2URiooOfJ}CJ;Py8l{f06iyC4P?hwZwD(FC!0mmh*EJctzY<bl~y4@>2XafPdgl
zb+HT_HP*nlj`ZAE2|S+HBQf8I^DK^z7u;6WfgKA*%GO<DQUFnOOR#2WT-@H>pu1Up
z9QQXALDO{f$&8aSGP>zHg`#ehro_0D&1WpvGS!yq8o0B<){R2JnAWYFTbLFT1tV+e
zW+|JU29rQb2Tga8s%qz8i$&HlZNs&6r{v~KuA0e!*}zE8p|~C&>epeLMgQ@ko<oCu
zK*N3&J+6^d>mLz%;^5)lo`d?~fq|p(q@L{QJs8(T(Jk1yNi}0b??y&7lcx{lQe)16
z6m%i&4~g+Mkh^XDuuQ`>gm=1f|HaW0J$<foB%P2Y>B6a^n@yA)Q<fC8CypO^V$3}D
zlq_)*#UWE0OXSBOT6F5~H-X0D%_q89bo8{5Ght(jbiyZx^67XydteGqc<?aTn|4kw
z6)jW1HM%2|<9!p!!bEApDarjDi;o?iPLG}(#w(dB7AX=JN^^1~S?KNU)y8e%?X!_W
zNcEkzok`2g-jS0}jGnNq@mwOElHDD5j-1Hm`;H#y$Cm+JhrKsE1aMPM)txqrxA#=8
zCT{BS#+&S8Ako`1F?G`ENx&w#;&j$EQh;v3$28ZxfteR-&T%buGFMXb1t)J6-01+7
zD%r46%QlJX=^bpw8_iQs8^yFx&FLJt@X;;!lBcXf(ROl+8al`dR>nXB0XK#13N@c`
z)ky~`t~CWmyv;z#@kXI)rRl~>n_$W<-_*aud<(8azed&`2d9pUJwr%1npL=_LWO%g
z3%72S$Ib_)@I4&965t)gFHQ7-WaRg75_`H_NBk&!@LiehyUCtW0a>u{do*)hPzl-}
zBYVcJtVqb;Z%pI+R?wc`_ZSscB$VyPfd31;dvp9ezhGqlJin0RH^3g}7HrS+55^1R
z7h}XcvpvrnY~b*e*`DV!jQAcHEZ9e|JP8e)Td@5+oggF6%Q$}4V|*IyajwE`p06;r
zkTW@cj^R91&?VdRe2H<E6xqLg{$B$*o)gO}-<R~g$@4_&#`DE>#J|EPXs?hRBQ+}~
z+-Cf`WZyypMvj*|;5Os8B>NcIGvfPVu&`g|z6X_H{QQ2($n$8{m&fl9$-a>l6si!)
z`rKyx38<rgzJ7IVN4OPa!NPXTU4}}~e!JpJ81t-1$a!P>b*QX{58d{+=R35oS=Q$^
z<FCOs8nEa2RsFwde*<iB?6H5I_wc@I-an1w9}D~C>-Yk2c>Zk9`!{EIp|%j)eW)DS
zp7DK<1nv3%57)__pA*~x+cExAvKKMZZ1Hi3nhb2m?HX{79LLY^^Fw6M<AU`u)?ir<
z1ahQa5wU%9h4CwFA4J&)YM!MI`8kH)Lpa7ce$LAZ;5c@uR?6d@es!B9WWTJ4uk(_M
PCwiva*JzLoq^9^6t1M<e

-- 
2.43.0


From f346d8be7c3b9bd2bb9a3413cd9cb1805dc75430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 62/90] fix: unions of modules in the types of functions

---
 internals/compiler/compiler_types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler_types.go b/internals/compiler/compiler_types.go
index 6cf5b5a..594e775 100644
--- a/internals/compiler/compiler_types.go
+++ b/internals/compiler/compiler_types.go
@@ -121,7 +121,9 @@ func (c *Compiler) ToLLVMType(t ctypes.Type) types.Type {
 			// Use integers as wide as the alignment of the union so LLVM lays
 			// it out like ctypes (and C) does.
 			alignment := uint64(el.Alignment())
-			unionType := types.NewArray(uint64(el.SizeOf())/alignment, types.NewInt(alignment*8))
+			unionType := types.NewStruct(types.NewArray(uint64(el.SizeOf())/alignment, types.NewInt(alignment*8)))
+			// Its definition might come later, in a module
+			c.types[el.Name] = &Type{llvmType: unionType, candiceType: el}
 			return unionType
 		}
 
-- 
2.43.0


From b51b945ab3918b86720072470692d600e3faa319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:32 +0000
Subject: [PATCH 63/90] fix: variables of outer functions aren't constants

---
 internals/semantic/semantic.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 556f70f..b53df34 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1087,6 +1087,10 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 			s.errorWithStatement("you are trying to mutate a constant, '"+identifier.String()+"' is a constant variable", identifier.Token)
 		}
 
+		if !identifierType.IsConstant && s.expectConstantExpression {
+			s.errorWithStatement("this expression should be constant and '"+identifier.String()+"' is not a constant variable", identifier.Token)
+		}
+
 		if !identifierType.IsConstant && identifierType.parentFunction != s.currentFunctionBeingAnalyzed && identifierType.parentFunction != nil {
 			if !s.capture(identifier.Name, identifierType.parentFunction) {
 				s.errorWithStatement("a function can't use the local variable '"+identifier.String()+"' of another function", identifier.Token)
@@ -1096,10 +1100,6 @@ func (s *Semantic) analyzeIdentifier(identifier *ast.Identifier) ctypes.Type {
 			return identifierTypeUnwrap
 		}
 
-		if !identifierType.IsConstant && s.expectConstantExpression {
-			s.errorWithStatement("this expression should be constant and '"+identifier.String()+"' is not a constant variable", identifier.Token)
-		}
-
 		return identifierType.Type
 	}
 
-- 
2.43.0


From c24fdf628599233765906a5e8880fda06e4a67c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:27 +0000
Subject: [PATCH 64/90] fix: variables of modules aren't constants

---
 internals/semantic/semantic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index b53df34..44605df 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1233,6 +1233,10 @@ func (s *Semantic) analyzeModuleAccess(module *Semantic, binaryOp *ast.BinaryOpe
 		s.errorWithStatement("you are trying to mutate a constant, '"+binaryOp.String()+"' is a constant variable", binaryOp.Token)
 	}
 
+	if !accessedElement.IsConstant && s.expectConstantExpression {
+		s.errorWithStatement("this expression should be constant and '"+binaryOp.String()+"' is not a constant variable", binaryOp.Token)
+	}
+
 	binaryOp.Type = accessedElement.Type
 
 	return accessedElement.Type
-- 
2.43.0


From 7c840d4016777358033026a47a19be804571dfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 65/90] fix: local constants that are functions

---
 internals/compiler/compiler.go          | 12 ++++++++++++
 internals/compiler/compiler_constant.go |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 3e2bed4..ab04bf4 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -1125,6 +1125,12 @@ func (c *Compiler) defineGlobalArray(name string, array constant.Constant) value
 func (c *Compiler) retrieveVariable(name string) value.Value {
 	identifier := c.retrieveLocalVariable(name)
 	if identifier != nil {
+		if isFunctionValue(identifier) {
+			// A constant, it isn't stored
+			c.doNotLoadIntoMemory = true
+			return identifier
+		}
+
 		if !types.IsPointer(identifier.Type()) {
 			c.doNotLoadIntoMemory = true
 			if types.IsArray(identifier.Type()) {
@@ -1174,6 +1180,12 @@ func (c *Compiler) retrieveVariable(name string) value.Value {
 	panic("")
 }
 
+// isFunctionValue tells whether the value is a function and not the memory of a variable
+func isFunctionValue(v value.Value) bool {
+	pointer, isPointer := v.Type().(*types.PointerType)
+	return isPointer && types.IsFunc(pointer.ElemType)
+}
+
 // functionValue returns the function with the type that it was declared with. The main function
 // returns the status of the program even if it was declared without a result.
 func (c *Compiler) functionValue(fn *Value) value.Value {
diff --git a/internals/compiler/compiler_constant.go b/internals/compiler/compiler_constant.go
index e0a078b..3619e5d 100644
--- a/internals/compiler/compiler_constant.go
+++ b/internals/compiler/compiler_constant.go
@@ -91,7 +91,7 @@ func (c *Compiler) handleConstantCast(val constant.Constant, originalType ctypes
 // compileConstantIdentifier retrieves the value of a constant
 func (c *Compiler) compileConstantIdentifier(expr *ast.Identifier) constant.Constant {
 	if local := c.retrieveLocalVariable(expr.Name); local != nil {
-		if value, isConstant := local.(constant.Constant); isConstant && !types.IsPointer(value.Type()) {
+		if value, isConstant := local.(constant.Constant); isConstant && (!types.IsPointer(value.Type()) || isFunctionValue(value)) {
 			return value
 		}
 	} else if global, ok := c.globalVariables[expr.Name]; ok && global.Constant {
-- 
2.43.0


From a2c2d20b998d12ab7edcde0ecf2b732cac11b24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:29 +0000
Subject: [PATCH 66/90] fix: list the types of a module in the same order in
 every run

---
 internals/semantic/semantic.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 44605df..7d89074 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -6,6 +6,7 @@ import (
 	"log"
 	"os"
 	"path"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -682,11 +683,15 @@ func (s *Semantic) UnwrapAnonymous(t ctypes.Type) ctypes.Type {
 
 		t, ok := semantic.definedTypes[name]
 		if !ok {
-			typesDefined := ""
+			names := make([]string, 0, len(semantic.definedTypes))
 			for _, t := range semantic.definedTypes {
-				typesDefined += "- " + t.String() + "\n"
+				names = append(names, "- "+t.String()+"\n")
 			}
 
+			// The order of a map changes between runs
+			sort.Strings(names)
+			typesDefined := strings.Join(names, "")
+
 			if typesDefined == "" {
 				typesDefined = "No types defined in the module."
 			}
-- 
2.43.0


From 58848bf8438b4608736c09de15d2ffe6baaa1044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 67/90] fix: no second error for an import that failed

---
 internals/semantic/semantic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 7d89074..4d19ee5 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -215,7 +215,8 @@ func (s *Semantic) analyzeStatement(statement ast.Statement) {
 	case *ast.ImportStatement:
 		// moved to step of structs
 		// s.analyzeImport(statementType)
-		if s.modules[statementType.Name] == nil {
+		// (if its import failed there is an error already)
+		if s.modules[statementType.Name] == nil && len(s.Errors) == 0 {
 			s.errorWithStatement("modules can only be imported at the top level of a file", statementType.Token)
 		}
 		return
-- 
2.43.0


From 105de84279aa133e39304d28361e053209ca3e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 68/90] fix: show the names of types in errors without their
 invented suffix

---
 internals/ast/statements.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internals/ast/statements.go b/internals/ast/statements.go
index a2472fd..ab84201 100644
--- a/internals/ast/statements.go
+++ b/internals/ast/statements.go
@@ -320,7 +320,7 @@ type GenericTypeDefinition struct {
 
 func (g *GenericTypeDefinition) statementNode() {}
 
-func (g *GenericTypeDefinition) String() string        { return g.Name }
+func (g *GenericTypeDefinition) String() string        { return RetrieveID(g.Name) }
 func (g *GenericTypeDefinition) GetToken() token.Token { return g.Token }
 
 type TypeDefinition struct {
@@ -331,7 +331,7 @@ type TypeDefinition struct {
 
 func (g *TypeDefinition) statementNode() {}
 
-func (g *TypeDefinition) String() string { return fmt.Sprintf("type %s = %s", g.Name, g.Type.String()) }
+func (g *TypeDefinition) String() string { return fmt.Sprintf("type %s = %s", RetrieveID(g.Name), g.Type.String()) }
 
 func (g *TypeDefinition) GetToken() token.Token { return g.Token }
 
-- 
2.43.0


From 9bf9ad556e91a6d276e385ad7fd89c0600bde967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 69/90] fix: make the object of a project of kind llvm

---
 internals/compiler/compiler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index ab04bf4..c9783b3 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -297,7 +297,8 @@ func (c *Compiler) GenerateExecutableExperimental(output string, cxx string, fla
 		return err
 	}
 
-	if !link {
+	// The object is already there, otherwise the CXX makes it
+	if !link && pathOutput == output {
 		return err
 	}
 
-- 
2.43.0


From a9b79269c26cb05cbd60818ced5730bca5730c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 70/90] fix: link with libm, where the remainder of floats is

---
 internals/compiler/compiler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index c9783b3..8c708da 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -278,6 +278,8 @@ func (c *Compiler) GenerateExecutableCXX(output string, cxx string, flags []stri
 	_, _ = c.m.WriteTo(fd)
 	endFlags := []string{".intermediate_output.ll", "-o", output}
 	endFlags = append(endFlags, flags...)
+	// The remainder of floats is a call to fmod, which is in libm
+	endFlags = append(endFlags, "-lm")
 	cmd := exec.Command(cxx, endFlags...)
 	stdout := &bytes.Buffer{}
 	cmd.Stdout = stdout
@@ -304,6 +306,10 @@ func (c *Compiler) GenerateExecutableExperimental(output string, cxx string, fla
 
 	command := append(flags, pathOutput)
 	command = append(command, "-o", output)
+	if link {
+		// The remainder of floats is a call to fmod, which is in libm
+		command = append(command, "-lm")
+	}
 	// command = append(command, "-O3")
 	cmd := exec.Command(cxx, command...)
 	outputBuffer := bytes.Buffer{}
-- 
2.43.0


From c4c841f8c50de62623938d0ae8c7a066a0cd86d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 71/90] fix: trees of several declarations, block expressions,
 for headers, strings with lines and texts with errors

---
 internals/tree_printer/printer.go | 44 ++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/internals/tree_printer/printer.go b/internals/tree_printer/printer.go
index 77c5ce0..513eb8f 100644
--- a/internals/tree_printer/printer.go
+++ b/internals/tree_printer/printer.go
@@ -3,12 +3,14 @@ package tree_printer
 import (
 	"fmt"
 	"io"
+	"strconv"
 	"strings"
 
 	"github.com/gabivlj/candice/internals/ast"
 	"github.com/gabivlj/candice/internals/ctypes"
 	"github.com/gabivlj/candice/internals/lexer"
 	"github.com/gabivlj/candice/internals/parser"
+	"github.com/gabivlj/candice/internals/token"
 )
 
 const FirstConnectorMultiple = "╦"
@@ -94,15 +96,15 @@ func Process(statement ast.Statement) string {
 		{
 			var strings []string
 			if t.InitializerStatement != nil {
-				strings = append(strings, "initializer: "+Process(t.InitializerStatement))
+				strings = append(strings, prefixString("initializer: ", Process(t.InitializerStatement)))
 			}
 
 			if t.Condition != nil {
-				strings = append(strings, "condition: "+processExpression(t.Condition))
+				strings = append(strings, prefixString("condition: ", processExpression(t.Condition)))
 			}
 
 			if t.Operation != nil {
-				strings = append(strings, "operation: "+Process(t.Operation))
+				strings = append(strings, prefixString("operation: ", Process(t.Operation)))
 			}
 
 			strings = append(strings, Process(t.Block))
@@ -151,7 +153,7 @@ func Process(statement ast.Statement) string {
 			for _, t := range t.Types {
 				strings = append(strings, t.String())
 			}
-			strings = append(strings, `"`+t.Path.String()+`"`)
+			strings = append(strings, strconv.Quote(t.Path.Value))
 			return ConnectString("ast.ImportStatement", strings)
 		}
 
@@ -211,7 +213,13 @@ func Process(statement ast.Statement) string {
 
 	case *ast.MultipleDeclarationStatement:
 		{
-			panic("unimplemented")
+			var strings []string
+			for _, name := range t.Names {
+				strings = append(strings, ast.RetrieveID(name))
+			}
+
+			strings = append(strings, processExpression(t.Expression))
+			return ConnectString("ast.MultipleDeclarationStatement", strings)
 		}
 	}
 
@@ -243,7 +251,19 @@ func processExpression(expression ast.Expression) string {
 
 	case *ast.Integer, *ast.Float:
 		{
-			return t.String() + " (" + t.GetType().String() + ")"
+			literal := t.String()
+			if integer, ok := t.(*ast.Integer); ok {
+				if integer.Node == nil {
+					// It stands for an expression that can't be parsed
+					return literal
+				}
+
+				if integer.Token.Type == token.CHAR {
+					literal = strconv.QuoteRune(rune(integer.Value))
+				}
+			}
+
+			return literal + " (" + t.GetType().String() + ")"
 		}
 
 	case *ast.AnonymousFunction:
@@ -309,7 +329,7 @@ func processExpression(expression ast.Expression) string {
 
 	case *ast.StringLiteral:
 		{
-			return ConnectString("ast.StringLiteral", []string{fmt.Sprintf(`"%s"`, t.Value)})
+			return ConnectString("ast.StringLiteral", []string{strconv.Quote(t.Value)})
 		}
 
 	case *ast.IndexAccess:
@@ -332,6 +352,11 @@ func processExpression(expression ast.Expression) string {
 			return ConnectString("ast.StructLiteral", fields)
 		}
 
+	case *ast.ExpressionBlock:
+		{
+			return ConnectString("ast.ExpressionBlock", []string{ConnectString("types.Return", []string{t.Type.String()}), Process(t.Block)})
+		}
+
 	case *ast.CommaExpressions:
 		{
 			var expressions []string
@@ -369,6 +394,11 @@ func getWall(multipleBelow bool) string {
 	return " "
 }
 
+// prefixString puts a label before a tree, the rest of its lines stay aligned with the first one
+func prefixString(label string, tree string) string {
+	return label + strings.ReplaceAll(tree, "\n", "\n"+strings.Repeat(" ", len(label)))
+}
+
 func ConnectString(tag string, s []string) string {
 	builder := strings.Builder{}
 	spaces := strings.Repeat(" ", len(tag))
-- 
2.43.0


From 7c8d6909896fbe7537388fb48a964766947fea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 72/90] fix: print integers of type u64 as unsigned

---
 internals/ast/expressions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/ast/expressions.go b/internals/ast/expressions.go
index 7fa5e91..fc78686 100644
--- a/internals/ast/expressions.go
+++ b/internals/ast/expressions.go
@@ -198,6 +198,10 @@ func (i *Integer) String() string {
 		return "'" + string([]byte{byte(i.Value)}) + "'"
 	}
 
+	if i.Type == ctypes.U64 {
+		return strconv.FormatUint(uint64(i.Value), 10)
+	}
+
 	return strconv.FormatInt(i.Value, 10)
 }
 
-- 
2.43.0


From 9e9cf3d14f1064f5ceefb5ee738129e9f9548700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 73/90] fix: the language server answers every request and uses
 the newest text

---
 cmd/autocomplete/main.go                   | 9 ++++++---
 internals/autocomplete/server/on_change.go | 7 ++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/cmd/autocomplete/main.go b/cmd/autocomplete/main.go
index 7e6f1a6..1f58eeb 100644
--- a/cmd/autocomplete/main.go
+++ b/cmd/autocomplete/main.go
@@ -50,10 +50,13 @@ func main() {
 		rawJson, _ := data.MarshalJSON()
 		json.Unmarshal(rawJson, &payload)
 		log.Println(payload)
-		if err := server.New(reply, req).HandleConnection(ctx); err != server.ErrHandlerForThisMethodDoesNotExist {
-			return err
-		} else if err == server.ErrHandlerForThisMethodDoesNotExist {
+		if err := server.New(reply, req).HandleConnection(ctx); err == server.ErrHandlerForThisMethodDoesNotExist {
 			log.Println("method", req.Method(), "doesn't have a handler")
+			return jsonrpc2.MethodNotFoundHandler(ctx, reply, req)
+		} else if err != nil {
+			// An error here would end the connection
+			log.Println("method", req.Method(), "failed:", err)
+			return reply(ctx, nil, err)
 		}
 
 		return nil
diff --git a/internals/autocomplete/server/on_change.go b/internals/autocomplete/server/on_change.go
index 4c0d78b..66530d7 100644
--- a/internals/autocomplete/server/on_change.go
+++ b/internals/autocomplete/server/on_change.go
@@ -21,7 +21,12 @@ func (c *Connection) onChange() error {
 		return err
 	}
 
-	txt := parameters.ContentChanges[0].Text
+	if len(parameters.ContentChanges) == 0 {
+		return nil
+	}
+
+	// Every change has the entire text, the last one has the newest
+	txt := parameters.ContentChanges[len(parameters.ContentChanges)-1].Text
 	log.Println(txt)
 	log.Println("possible error writing output", tree_printer.WriteOutput(txt, os.Stderr))
 	return nil
-- 
2.43.0


From 5b7dcf884579107927d8da6b6d9fe0973f487e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:04 +0000
Subject: [PATCH 74/90] fix: parentheses around types must be closed

---
 internals/parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 52b381e..b57ac29 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -613,6 +613,7 @@ func (p *Parser) parseType() ctypes.Type {
 	if p.currentToken.Type == token.LPAREN {
 		p.nextToken()
 		t := p.parseTypes()
+		p.expect(token.RPAREN)
 		p.nextToken()
 		return t
 	}
-- 
2.43.0


From d083cbe310121be93c42d2047dabea106baa15bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:49 +0000
Subject: [PATCH 75/90] fix: the parser accepted anything in place of the func
 of a pub func and of the name in @m.S{}, and fields without commas

---
 internals/parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index b57ac29..9d4e373 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -218,6 +218,7 @@ func (p *Parser) parseTypeDefinition(name token.Token) ast.Statement {
 
 func (p *Parser) parsePublicFunction() ast.Statement {
 	p.nextToken()
+	p.expect(token.FUNCTION)
 	fn := p.parseFunctionDeclaration().(*ast.FunctionDeclarationStatement)
 	fn.FunctionType.RedefineWithOriginalName = true
 	return fn
@@ -441,7 +442,7 @@ func (p *Parser) parseStructLiteral(module string) ast.Expression {
 		p.expect(token.COLON)
 		p.nextToken()
 		expr := p.parseExpression(2)
-		if len(structValues) >= 1 && p.currentToken.Type != token.RBRACE {
+		if p.currentToken.Type != token.RBRACE {
 			p.expect(token.COMMA)
 		}
 
@@ -916,6 +917,7 @@ func (p *Parser) parseAt() ast.Expression {
 	if p.peekToken.Type == token.DOT {
 		module = ast.CreateIdentifier(p.nextToken().Literal, p.ID)
 		p.nextToken()
+		p.expect(token.IDENT)
 	}
 
 	if p.peekToken.Type == token.LBRACE {
-- 
2.43.0


From 181aec9f960721c6500b1540d5ae0c39e33f723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:49 +0000
Subject: [PATCH 76/90] fix: the places of tokens in errors were their ends,
 off by one column, or on another line

---
 internals/lexer/lexer.go   | 65 ++++++++++++++++++++++++--------------
 internals/parser/parser.go | 23 ++++++++------
 2 files changed, 55 insertions(+), 33 deletions(-)

diff --git a/internals/lexer/lexer.go b/internals/lexer/lexer.go
index 3bf8904..2ea4125 100644
--- a/internals/lexer/lexer.go
+++ b/internals/lexer/lexer.go
@@ -1,6 +1,8 @@
 package lexer
 
 import (
+	"strings"
+
 	"github.com/gabivlj/candice/internals/token"
 )
 
@@ -35,10 +37,7 @@ func isLetter(ch byte) bool {
 
 func (l *Lexer) skipWhiteSpace() {
 	for l.ch == ' ' || l.ch == '\t' || l.ch == '\r' || l.ch == '\n' {
-		if l.ch == '\n' {
-			l.line++
-			l.column = 1
-		}
+		l.countLine()
 		l.readChar()
 	}
 }
@@ -47,23 +46,33 @@ func (l *Lexer) skipUntilJL() {
 	for l.ch != '\n' && !l.isEOF() {
 		l.readChar()
 	}
+	l.countLine()
 	l.readChar()
-	l.line++
-	l.column = 1
 }
 
-func (l *Lexer) RetrieveLine(t token.Token) string {
-	if t.Type == token.EOF || t.OverallPosition >= len(l.input) {
-		t.OverallPosition = len(l.input) - 1
+// countLine starts another line when the current character ends one
+func (l *Lexer) countLine() {
+	if l.ch == '\n' {
+		l.line++
+		l.column = 0
 	}
-	if t.OverallPosition < 0 {
-		return ""
+}
+
+// RetrieveLine returns the line of a token, and where the token starts in it
+func (l *Lexer) RetrieveLine(t token.Token) (string, int) {
+	position := t.OverallPosition
+	if position >= len(l.input) {
+		position = len(l.input) - 1
 	}
-	currentColumn := t.OverallPosition - 1
-	for currentColumn >= 0 && l.input[currentColumn] != '\n' && l.input[currentColumn] != '\t' {
-		currentColumn--
+	if position < 0 {
+		return "", 0
 	}
-	return l.input[currentColumn+1 : t.OverallPosition+1]
+	start := strings.LastIndexByte(l.input[:position], '\n') + 1
+	line := l.input[start:]
+	if end := strings.IndexByte(l.input[position:], '\n'); end >= 0 {
+		line = l.input[start : position+end]
+	}
+	return line, position - start
 }
 
 // Returns if there is a combination with the next char, else returns otherwise param
@@ -94,6 +103,7 @@ func (l *Lexer) readCharLiteral() token.Token {
 		// it's a \n or \t
 		l.readChar()
 		c := l.ch
+		l.countLine()
 		l.readChar()
 		if c == 'n' {
 			c = '\n'
@@ -105,10 +115,7 @@ func (l *Lexer) readCharLiteral() token.Token {
 		literal = c
 	} else {
 		literal = l.ch
-		if literal == '\n' {
-			l.line++
-			l.column = 1
-		}
+		l.countLine()
 		l.readChar()
 	}
 
@@ -137,13 +144,21 @@ func (l *Lexer) getMacroToken() token.Token {
 
 // NextToken Returns the next token of an input
 func (l *Lexer) NextToken() token.Token {
-	var tok token.Token
 	l.skipWhiteSpace()
 	for l.ch == '/' && l.peekChar() == '/' {
 		l.skipUntilJL()
 		l.skipWhiteSpace()
 	}
 	l.skipWhiteSpace()
+	// the place of every token is its first character
+	line, column, position := l.line, l.column, l.position
+	tok := l.readToken()
+	tok.Line, tok.Position, tok.OverallPosition = line, column, position
+	return tok
+}
+
+func (l *Lexer) readToken() token.Token {
+	var tok token.Token
 	switch l.ch {
 	case '\'':
 		tok = l.readCharLiteral()
@@ -271,15 +286,13 @@ func (l *Lexer) readString() string {
 
 			// Read it as a literal
 			l.readChar()
+			l.countLine()
 			s = append(s, l.ch)
 			l.readChar()
 			continue
 		}
 
-		if l.ch == '\n' {
-			l.line++
-			l.column = 1
-		}
+		l.countLine()
 		s = append(s, l.ch)
 		l.readChar()
 	}
@@ -350,6 +363,10 @@ func (l *Lexer) readNumber() (string, token.TypeToken) {
 }
 
 func (l *Lexer) readChar() {
+	if l.readPosition > len(l.input) {
+		// Already at the end
+		return
+	}
 	defer func() {
 		// next position is current position now
 		l.position = l.readPosition
diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 9d4e373..e47c2e4 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -52,17 +52,22 @@ func (p *Parser) nextToken() token.Token {
 }
 
 func (p *Parser) retrieveCurrentLineMessage() string {
-	blameLine := p.lexer.RetrieveLine(p.currentToken)
-	numberOfSpaces := len(blameLine) - len(p.currentToken.Literal)
-	if numberOfSpaces < 0 {
-		numberOfSpaces = 0
+	blameLine, start := p.lexer.RetrieveLine(p.currentToken)
+	// keep the tabs, so that the mark is under the token
+	spaces := strings.Map(func(r rune) rune {
+		if r == '\t' {
+			return r
+		}
+		return ' '
+	}, blameLine[:start])
+	length := len(p.currentToken.Literal)
+	if length > len(blameLine)-start {
+		length = len(blameLine) - start
 	}
-	literalLen := len(p.currentToken.Literal)
-	if literalLen <= 0 {
-		literalLen = 1
+	if length <= 0 {
+		length = 1
 	}
-	c := fmt.Sprintf("\n%s\n%s happened here", blameLine, strings.Repeat(" ", numberOfSpaces)+strings.Repeat("^", literalLen))
-	return c
+	return fmt.Sprintf("\n%s\n%s happened here", blameLine, spaces+strings.Repeat("^", length))
 }
 
 func (p *Parser) expect(expected token.TypeToken) {
-- 
2.43.0


From d6e9fe7a44b2a7ffe72028315cfd487052ebc4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:49 +0000
Subject: [PATCH 77/90] fix: builds at the same time in one directory used the
 same intermediate file

---
 internals/compiler/compiler.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index 8c708da..ef5df16 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -271,12 +271,20 @@ func (c *Compiler) GenerateExecutable() error {
 
 // GenerateExecutableCXX creates an executable from llvm bitcode, CXX needs to be able to compile llvm
 func (c *Compiler) GenerateExecutableCXX(output string, cxx string, flags []string) error {
-	defer func() {
-		os.Remove(".intermediate_output.ll")
-	}()
-	fd, _ := os.Create(".intermediate_output.ll")
-	_, _ = c.m.WriteTo(fd)
-	endFlags := []string{".intermediate_output.ll", "-o", output}
+	// Builds at the same time must not share the file
+	fd, err := os.CreateTemp("", "candice-*.ll")
+	if err != nil {
+		return err
+	}
+	defer os.Remove(fd.Name())
+	_, err = c.m.WriteTo(fd)
+	if closeErr := fd.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		return err
+	}
+	endFlags := []string{fd.Name(), "-o", output}
 	endFlags = append(endFlags, flags...)
 	// The remainder of floats is a call to fmod, which is in libm
 	endFlags = append(endFlags, "-lm")
@@ -284,7 +292,7 @@ func (c *Compiler) GenerateExecutableCXX(output string, cxx string, flags []stri
 	stdout := &bytes.Buffer{}
 	cmd.Stdout = stdout
 	cmd.Stderr = stdout
-	err := cmd.Run()
+	err = cmd.Run()
 	if err != nil {
 		return fmt.Errorf("error compiling with %s:\n"+stdout.String()+"\n status: "+err.Error(), cxx)
 	}
-- 
2.43.0


From 8388b3aabf9022a6ca8b97a1c177f852a0402911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:49 +0000
Subject: [PATCH 78/90] fix: projects in another directory than the current one
 could not be built or run

---
 internals/build/builder.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internals/build/builder.go b/internals/build/builder.go
index d15cc31..a8da27f 100644
--- a/internals/build/builder.go
+++ b/internals/build/builder.go
@@ -8,8 +8,6 @@ import (
 	"strconv"
 	"time"
 
-	paths "path"
-
 	"github.com/gabivlj/candice/internals/compiler"
 	"github.com/gabivlj/candice/internals/lexer"
 	"github.com/gabivlj/candice/internals/parser"
@@ -64,7 +62,13 @@ func ExecuteProject() {
 		return
 	}
 
-	config, err := ParseConfigurationFile(paths.Join(flags.Path, "candice.json"))
+	// The paths of a project are relative to it
+	if err := os.Chdir(flags.Path); err != nil {
+		logger.Error("Project", err.Error())
+		return
+	}
+
+	config, err := ParseConfigurationFile("candice.json")
 
 	if err != nil {
 		logger.Error("Project", err.Error())
-- 
2.43.0


From a3fbdda68ccc9acdb9807c57f764b5e2e422527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:49 +0000
Subject: [PATCH 79/90] fix: the compiler panicked without a file, and went on
 after it could not read it

---
 internals/program/program.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internals/program/program.go b/internals/program/program.go
index f306177..7e3e695 100644
--- a/internals/program/program.go
+++ b/internals/program/program.go
@@ -32,11 +32,17 @@ func Init() {
 	flag.StringVar(&objectFileFlag, "o", "", "Objects to link")
 	flag.StringVar(&programName, "name", "program", "Program name")
 	flag.Parse()
+	if flag.NArg() == 0 {
+		logger.Error("Flags", "the file to compile is missing")
+		flag.Usage()
+		return
+	}
 	file := flag.Args()[0]
 	objects := strings.Split(objectFileFlag, ",")
 	code, err := os.ReadFile(file)
 	if err != nil {
-		logger.Error("", "Opening file", err.Error())
+		logger.Error("Opening file", err.Error())
+		return
 	}
 
 	p := parser.New(lexer.New(string(code)))
-- 
2.43.0


From fb3e2e881de3a60b7917a8eab75ae4bbccf5885c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:09 +0000
Subject: [PATCH 80/90] fix: candice init overwrote the files of a project, and
 made it elsewhere when its path was absolute

---
 internals/build/builder.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/internals/build/builder.go b/internals/build/builder.go
index a8da27f..f488129 100644
--- a/internals/build/builder.go
+++ b/internals/build/builder.go
@@ -5,6 +5,7 @@ import (
 	"os"
 	"os/exec"
 	"path"
+	"path/filepath"
 	"strconv"
 	"time"
 
@@ -161,12 +162,21 @@ func ExecuteProject() {
 
 func createSampleProject(basePath string) {
 
-	relative, err := os.Getwd()
+	base, err := filepath.Abs(basePath)
 	if err != nil {
-		logger.Warning("internal error retrieving relative path: " + err.Error())
+		logger.Error("Setup", "error setting up the project", err.Error())
+		return
+	}
+
+	candiceJson := path.Join(base, "candice.json")
+	candiceMain := path.Join(base, "main.cd")
+	for _, file := range []string{candiceJson, candiceMain} {
+		if _, err := os.Stat(file); err == nil {
+			logger.Error("Setup", file+" already exists")
+			return
+		}
 	}
 
-	candiceJson := path.Join(relative, basePath, "candice.json")
 	fd, err := os.Create(candiceJson)
 	if err != nil {
 		logger.Error("Setup", "error setting up candice.json", err.Error())
@@ -179,7 +189,6 @@ func createSampleProject(basePath string) {
 		return
 	}
 
-	candiceMain := path.Join(relative, basePath, "main.cd")
 	fdMain, err := os.Create(candiceMain)
 	if err != nil {
 		logger.Error("Setup", "error setting up main.cd", err.Error())
-- 
2.43.0


From 3584fc7b63889545cfd088b9b03ddcee6011e6a6 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 81/90] fix: candice run could not run an executable with an
 absolute path

---
 internals/build/builder.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internals/build/builder.go b/internals/build/builder.go
index f488129..2650199 100644
--- a/internals/build/builder.go
+++ b/internals/build/builder.go
@@ -146,11 +146,16 @@ func ExecuteProject() {
 			return
 		}
 
-		cmd := exec.Command("./" + config.Output)
+		executable, err := filepath.Abs(config.Output)
+		if err != nil {
+			logger.Error("Project", err.Error())
+			return
+		}
+		cmd := exec.Command(executable)
 		cmd.Stdout = os.Stdout
 		cmd.Stderr = os.Stderr
 		cmd.Stdin = os.Stdin
-		err := cmd.Run()
+		err = cmd.Run()
 		if err != nil {
 			fmt.Println(err)
 		}
-- 
2.43.0


From 3e1c20c091bf4d3e3ee82384154303fb7b8ec3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:37 +0000
Subject: [PATCH 82/90] fix: errors about assignments and expressions were
 placed at the token behind them

---
 internals/parser/parser.go            | 4 +++-
 internals/parser/parser_assignment.go | 9 +++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index e47c2e4..3adf0b4 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -336,8 +336,10 @@ func (p *Parser) parseReturn() ast.Statement {
 }
 
 func (p *Parser) parseExpressionStatement() *ast.ExpressionStatement {
+	// Before the expression is parsed, operands are evaluated in any order
+	first := p.currentToken
 	return &ast.ExpressionStatement{
-		Token:      p.currentToken,
+		Token:      first,
 		Expression: p.parseExpression(0),
 	}
 }
diff --git a/internals/parser/parser_assignment.go b/internals/parser/parser_assignment.go
index 03ec010..c0d06d8 100644
--- a/internals/parser/parser_assignment.go
+++ b/internals/parser/parser_assignment.go
@@ -8,6 +8,7 @@ import (
 )
 
 func (p *Parser) parsePossibleAssignment() ast.Statement {
+	first := p.currentToken
 	expr := p.parseExpression(0)
 	// log.Println(expr)
 	if bin, ok := expr.(*ast.BinaryOperation); ok {
@@ -34,12 +35,12 @@ func (p *Parser) parsePossibleAssignment() ast.Statement {
 			return &ast.AssignmentStatement{
 				Left:       bin.Left,
 				Expression: bin.Right,
-				Token:      p.currentToken,
+				Token:      first,
 			}
 		}
 
 		return &ast.ExpressionStatement{
-			Token:      p.currentToken,
+			Token:      first,
 			Expression: expr,
 		}
 	}
@@ -48,7 +49,7 @@ func (p *Parser) parsePossibleAssignment() ast.Statement {
 		for _, expression := range commaExpr.Expressions {
 			if _, isIdentifier := expression.(*ast.Identifier); !isIdentifier {
 				p.addErrorMessage("only names can be declared, got " + expression.String())
-				return &ast.ExpressionStatement{Token: p.currentToken, Expression: expr}
+				return &ast.ExpressionStatement{Token: first, Expression: expr}
 			}
 		}
 		declToken := p.nextToken()
@@ -69,7 +70,7 @@ func (p *Parser) parsePossibleAssignment() ast.Statement {
 	}
 
 	return &ast.ExpressionStatement{
-		Token:      p.currentToken,
+		Token:      first,
 		Expression: expr,
 	}
 }
-- 
2.43.0


From e00acfc97cccc2fbb0c0d594ed3464c3eeb1df67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:02 +0000
Subject: [PATCH 83/90] fix: a multiple declaration as the update of a for loop
 ended in an internal error

---
 internals/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internals/parser/parser.go b/internals/parser/parser.go
index 3adf0b4..f40139e 100644
--- a/internals/parser/parser.go
+++ b/internals/parser/parser.go
@@ -1151,6 +1151,9 @@ func (p *Parser) parseFor() ast.Statement {
 	p.nextToken()
 	if p.currentToken.Type != token.LBRACE {
 		operation = p.parsePossibleAssignment()
+		if _, isMultipleDeclaration := operation.(*ast.MultipleDeclarationStatement); isMultipleDeclaration {
+			p.addErrorMessage("can't do a multiple declaration statement within a for loop")
+		}
 	}
 	block := p.parseBlock()
 	return &ast.ForStatement{
-- 
2.43.0


From f0bbd7f8bdeca976a4002ff497f5ad17e62582c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:14 +0000
Subject: [PATCH 84/90] fix: build a project with the flags that its program
 asks for

---
 internals/program/program.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internals/program/program.go b/internals/program/program.go
index 7e3e695..862922a 100644
--- a/internals/program/program.go
+++ b/internals/program/program.go
@@ -63,7 +63,11 @@ func Init() {
 	}
 
 	c := compiler.New(s)
-	c.Compile(tree)
+	c.CompileWithEventHandler(tree, func(e compiler.Event) {
+		if e.Kind == compiler.AddFlags {
+			objects = append(objects, e.Data)
+		}
+	})
 	err = c.GenerateExecutableExperimental(programName, "clang", objects, true, true)
 	if err != nil {
 		logger.Error("Internally At Compile Time", err.Error())
-- 
2.43.0


From df5c7ceeffd7e8a1259a673d4f583b7f86c2b616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:24 +0000
Subject: [PATCH 85/90] fix: reject break and continue that would leave the
 function they are in

---
 internals/semantic/semantic.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 4d19ee5..e735955 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -365,7 +365,11 @@ func (s *Semantic) analyzeForStatement(forStatement *ast.ForStatement) {
 func (s *Semantic) analyzeFunctionStatement(fun *ast.FunctionDeclarationStatement) {
 	tmpNamed, tmpAnonymous := s.currentNamedFunctionBeingAnalyzed, s.anonymousFunctionsBeingAnalyzed
 	s.currentNamedFunctionBeingAnalyzed, s.anonymousFunctionsBeingAnalyzed = fun.FunctionType, nil
+	// the loop around the function isn't reachable from its body
+	tmpInsideBreakableBlock := s.insideBreakableBlock
+	s.insideBreakableBlock = false
 	s.analyzeFunctionType(fun.Token, fun.FunctionType, fun.Block)
+	s.insideBreakableBlock = tmpInsideBreakableBlock
 	s.currentNamedFunctionBeingAnalyzed, s.anonymousFunctionsBeingAnalyzed = tmpNamed, tmpAnonymous
 }
 
-- 
2.43.0


From 5e592acf2f1a5f046a10085af1c0539282797280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:34 +0000
Subject: [PATCH 86/90] fix: accept constants in the computation of an assigned
 place

---
 internals/semantic/semantic.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index e735955..065d402 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -861,6 +861,12 @@ func (s *Semantic) analyzeExpression(expression ast.Expression) ctypes.Type {
 		return ctypes.VoidType
 	}
 
+	if s.expectNonConstantExpression && !leadsToPlace(expression) {
+		// the values that a place is computed from aren't mutated
+		s.expectNonConstantExpression = false
+		defer func() { s.expectNonConstantExpression = true }()
+	}
+
 	switch expressionType := expression.(type) {
 	case *ast.CommaExpressions:
 		return s.analyzeCommaExpressions(expressionType)
@@ -1136,6 +1142,15 @@ func isPlace(expression ast.Expression) bool {
 	return false
 }
 
+// leadsToPlace tells whether modifying the expression modifies the variable that it begins with
+func leadsToPlace(expression ast.Expression) bool {
+	switch expression.(type) {
+	case *ast.CommaExpressions, *ast.PrefixOperation:
+		return true
+	}
+	return isPlace(expression)
+}
+
 func (s *Semantic) analyzePrefixOperation(prefixOperation *ast.PrefixOperation) ctypes.Type {
 	expectNonConstantExpression := s.expectNonConstantExpression
 	if prefixOperation.Operation == ops.AddOne || prefixOperation.Operation == ops.SubtractOne {
-- 
2.43.0


From 2024fb28f72aefd0751cdf213f904230de21bb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:32 +0000
Subject: [PATCH 87/90] fix: reject variadic arguments that aren't one value

---
 internals/semantic/semantic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 065d402..667e2c5 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1083,6 +1083,9 @@ func (s *Semantic) analyzeFunctionCall(call *ast.Call) ctypes.Type {
 		paramType := s.analyzeExpression(param)
 
 		if i >= len(funcType.Parameters) {
+			if _, isList := paramType.(*ctypes.TypeList); isList || paramType == ctypes.VoidType {
+				s.errorWithStatement("can't pass "+param.String()+" because it isn't one value", call.Token)
+			}
 			continue
 		}
 
-- 
2.43.0


From 88e812a96ff670ea20ca9a04f722df4804384f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:40 +0000
Subject: [PATCH 88/90] fix: resolve the types inside a list of results

---
 internals/semantic/semantic.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 667e2c5..9f836f7 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -735,6 +735,13 @@ func (s *Semantic) swapTypes(t ctypes.Type, toSwap ctypes.Type) ctypes.Type {
 		return arr
 	}
 
+	if list, ok := t.(*ctypes.TypeList); ok && toSwap == ctypes.TODO() {
+		for i, element := range list.Types {
+			list.Types[i] = s.swapTypes(element, toSwap)
+		}
+		return list
+	}
+
 	if _, stopRecursionForStruct := t.(*ctypes.Struct); stopRecursionForStruct {
 		return t
 	}
-- 
2.43.0


From 25907fe0436dd3c7659cdd05ffb400acb32e8121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:50 +0000
Subject: [PATCH 89/90] fix: tell a variadic function type from one that isn't
 as type argument

---
 internals/semantic/semantic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internals/semantic/semantic.go b/internals/semantic/semantic.go
index 9f836f7..f89bf01 100644
--- a/internals/semantic/semantic.go
+++ b/internals/semantic/semantic.go
@@ -1504,6 +1504,9 @@ func typeIdentity(t ctypes.Type) string {
 		return "(" + typeIdentities(t.Types) + ")"
 	case *ctypes.Function:
 		identity := "func(" + typeIdentities(t.Parameters) + ")"
+		if t.InfiniteParameters {
+			identity = "func(" + typeIdentities(t.Parameters) + "..)"
+		}
 		if t.Return != nil {
 			identity += typeIdentity(t.Return)
 		}
-- 
2.43.0


From e2152a643a665bd7572dfb82d2ac1606103f90aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 90/90] fix: a function declared in the body of another one
 isn't the function of that name out of it

---
 internals/compiler/compiler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internals/compiler/compiler.go b/internals/compiler/compiler.go
index ef5df16..4d0a935 100644
--- a/internals/compiler/compiler.go
+++ b/internals/compiler/compiler.go
@@ -472,6 +472,10 @@ func (c *Compiler) Compile(tree ast.Node) {
 
 	case *ast.FunctionDeclarationStatement:
 		{
+			if c.currentFunction != nil {
+				// a function declared in the body of another one isn't the function of that name out of it
+				t.FunctionType.Name = "func." + random.RandomString(10) + "." + t.FunctionType.Name
+			}
 			c.compileFunctionDeclaration(t.FunctionType.Name, t)
 			return
 		}
-- 
2.43.0


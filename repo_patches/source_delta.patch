From 2084fb25987d9e5f723d653d4731a684bd1f692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:20 +0000
Subject: [PATCH 01/18] fix: pass the variadic slice itself to hooks and to the
 origin function

ReflectCall rebuilt the variadic slice element by element, so a mocked (or
passed-through) variadic function got a copy: in-place changes were lost for
the caller, and a call without variadic arguments saw a non-nil slice.
---
 internal/tool/call.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/internal/tool/call.go b/internal/tool/call.go
index 40dd333..8e80750 100644
--- a/internal/tool/call.go
+++ b/internal/tool/call.go
@@ -22,17 +22,8 @@ import (
 
 func ReflectCall(f reflect.Value, args []reflect.Value) []reflect.Value {
 	if f.Type().IsVariadic() {
-		newArgs := make([]reflect.Value, 0)
-		lastArg := args[len(args)-1]
-		for i := 0; i < len(args)-1; i++ {
-			newArgs = append(newArgs, args[i])
-		}
-
-		for i := 0; i < lastArg.Len(); i++ {
-			newArgs = append(newArgs, lastArg.Index(i))
-		}
-		return f.Call(newArgs)
-	} else {
-		return f.Call(args)
+		// the last arg is already the variadic slice: pass it as is, so that the callee shares it with the caller
+		return f.CallSlice(args)
 	}
+	return f.Call(args)
 }
-- 
2.43.0


From afbec8b1291f59cdc1121a3a6714e842a8e441f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:20 +0000
Subject: [PATCH 02/18] fix: calling the origin function must not overwrite the
 arguments of the mocked call

The origin hook appended its arguments into the backing array of the mocked
call's own argument list: conditions and hooks evaluated later saw the wrong
arguments, and concurrent origin calls in one hook mixed up theirs.
---
 mock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mock.go b/mock.go
index 676f006..4d897eb 100644
--- a/mock.go
+++ b/mock.go
@@ -313,7 +313,7 @@ func (mocker *Mocker) buildProxy() func(args []reflect.Value) {
 		}
 		proxyCallerSetter = func(args []reflect.Value) {
 			pElem.Set(reflect.MakeFunc(pElem.Type(), func(innerArgs []reflect.Value) (results []reflect.Value) {
-				return tool.ReflectCall(proxy.Elem(), append(args[0:shift], innerArgs...))
+				return tool.ReflectCall(proxy.Elem(), append(args[0:shift:shift], innerArgs...))
 			}))
 		}
 	}
-- 
2.43.0


From 6eac4f351f52f21b12d3aab4da94e9aab48b40ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:39 +0000
Subject: [PATCH 03/18] fix: keep the page executable while patching it (linux)

The page holding the target was made read/write, without execute, while the
branch was written. Any goroutine running another function of that page at
that moment crashed the process with SIGSEGV (stop-the-world is off by default
from go1.23 on).
---
 internal/monkey/mem/write_linux_amd64.s | 4 ++--
 internal/monkey/mem/write_linux_arm64.s | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/monkey/mem/write_linux_amd64.s b/internal/monkey/mem/write_linux_amd64.s
index d9e031a..f31495b 100644
--- a/internal/monkey/mem/write_linux_amd64.s
+++ b/internal/monkey/mem/write_linux_amd64.s
@@ -21,7 +21,7 @@
 #define NOP512 NOP64; NOP64; NOP64; NOP64; NOP64; NOP64; NOP64; NOP64;
 #define NOP4096 NOP512; NOP512; NOP512; NOP512; NOP512; NOP512; NOP512; NOP512;
 
-#define protRW $(0x1|0x2)
+#define protRWX $(0x1|0x2|0x4)
 #define mProtect $0x0a
 
 TEXT ·write(SB),NOSPLIT,$24
@@ -31,7 +31,7 @@ START:
     MOVQ    mProtect, AX
     MOVQ    page+24(FP), DI
     MOVQ    pageSize+32(FP), SI
-    MOVQ    protRW, DX
+    MOVQ    protRWX, DX
     SYSCALL
     CMPQ    AX, $0
     JZ      PROTECT_OK
diff --git a/internal/monkey/mem/write_linux_arm64.s b/internal/monkey/mem/write_linux_arm64.s
index 333d44e..fe639e7 100644
--- a/internal/monkey/mem/write_linux_arm64.s
+++ b/internal/monkey/mem/write_linux_arm64.s
@@ -21,7 +21,7 @@
 #define NOP4096 NOP512; NOP512; NOP512; NOP512; NOP512; NOP512; NOP512; NOP512;
 #define NOP16384 NOP4096; NOP4096; NOP4096; NOP4096; NOP4096; NOP4096; NOP4096; NOP4096;
 
-#define protRW $(0x1|0x2)
+#define protRWX $(0x1|0x2|0x4)
 #define mProtect $0xe2
 
 TEXT ·write(SB),NOSPLIT,$24
@@ -31,7 +31,7 @@ START:
     MOVD    mProtect, R8
     MOVD    page+24(FP), R0
     MOVD    pageSize+32(FP), R1
-    MOVD    protRW, R2
+    MOVD    protRWX, R2
     SVC     $0x00
     CMP     $0, R0
     BEQ     PROTECT_OK
-- 
2.43.0


From d1a5c1f4ab7fe1ce16f016df459ef56ee12b53c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:41 +0000
Subject: [PATCH 04/18] fix: unpatching an outer mock in an inner PatchConvey
 must unregister that mock

The mocker was deleted from the innermost scope instead of the one it was
registered in. The outer scope kept refusing to mock the function again, and an
inner mock of the same function was unregistered instead, so it outlived its
scope.
---
 convey.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/convey.go b/convey.go
index 7e7bd3e..e42c8b3 100644
--- a/convey.go
+++ b/convey.go
@@ -59,7 +59,13 @@ func addToGlobal(mocker mockerInstance) {
 
 func removeFromGlobal(mocker mockerInstance) {
 	tool.DebugPrintf("%v removed\n", mocker.key())
-	delete(gMocker[len(gMocker)-1], mocker.key())
+	// the mocker is not necessarily in the current scope, e.g. an outer mock can be unpatched in an inner 'PatchConvey'
+	for i := len(gMocker) - 1; i >= 0; i-- {
+		if gMocker[i][mocker.key()] == mocker {
+			delete(gMocker[i], mocker.key())
+			return
+		}
+	}
 }
 
 // Unpatch all mocks in current 'PatchConvey' context
-- 
2.43.0


From c70f25d64ce308f425dd99086fac6f0e3d3babad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:43 +0000
Subject: [PATCH 05/18] fix: a refused re-mock must not replace the mock in
 force

The second mock was patched in before the re-mock check panicked: it stayed in
force, unregistered, so the function or variable was not restored at the end of
the scope.
---
 convey.go   | 8 ++++++--
 mock.go     | 1 +
 mock_var.go | 1 +
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/convey.go b/convey.go
index e42c8b3..94fe060 100644
--- a/convey.go
+++ b/convey.go
@@ -48,12 +48,16 @@ func PatchConvey(items ...interface{}) {
 	convey.Convey(items...)
 }
 
-func addToGlobal(mocker mockerInstance) {
-	tool.DebugPrintf("%v added\n", mocker.key())
+// assertNotReMock should be called before the mocker takes any effect, so that a refused mock leaves no trace
+func assertNotReMock(mocker mockerInstance) {
 	last, ok := gMocker[len(gMocker)-1][mocker.key()]
 	if ok {
 		tool.Assert(!ok, "re-mock %v, previous mock at: %v", mocker.name(), last.caller())
 	}
+}
+
+func addToGlobal(mocker mockerInstance) {
+	tool.DebugPrintf("%v added\n", mocker.key())
 	gMocker[len(gMocker)-1][mocker.key()] = mocker
 }
 
diff --git a/mock.go b/mock.go
index 4d897eb..a4f94c6 100644
--- a/mock.go
+++ b/mock.go
@@ -327,6 +327,7 @@ func (mocker *Mocker) Patch() *Mocker {
 	if mocker.isPatched {
 		return mocker
 	}
+	assertNotReMock(mocker)
 	mocker.patch = monkey.PatchValue(mocker.target, mocker.hook, reflect.ValueOf(mocker.proxy), mocker.builder.unsafe, mocker.builder.generic)
 	mocker.isPatched = true
 	addToGlobal(mocker)
diff --git a/mock_var.go b/mock_var.go
index 910816c..9e7639c 100644
--- a/mock_var.go
+++ b/mock_var.go
@@ -73,6 +73,7 @@ func (mocker *MockerVar) Patch() *MockerVar {
 	defer mocker.lock.Unlock()
 
 	if !mocker.isPatched {
+		assertNotReMock(mocker)
 		mocker.target.Set(mocker.hook)
 		mocker.isPatched = true
 		addToGlobal(mocker)
-- 
2.43.0


From 55b6c5634d5582bb7b380e3e9bb13957471a2eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:35 +0000
Subject: [PATCH 06/18] fix: releasing stacked mocks of the same code out of
 order must keep the rest in force

When a function is mocked again while it is mocked (in an inner PatchConvey, or through another instantiation of the same
GC shape), unpatching the earlier mock first wrote the original code over the later hook, and unpatching the later one then
wrote back the branch to the earlier hook, leaving the function mocked for ever.

Track the patches in force of each address, and let the patch above take over the code saved by the one being removed.
---
 internal/monkey/patch.go | 41 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/internal/monkey/patch.go b/internal/monkey/patch.go
index 8f4ee24..ea41eb6 100644
--- a/internal/monkey/patch.go
+++ b/internal/monkey/patch.go
@@ -18,6 +18,7 @@ package monkey
 
 import (
 	"reflect"
+	"sync"
 
 	"github.com/bytedance/mockey/internal/monkey/common"
 	"github.com/bytedance/mockey/internal/monkey/fn"
@@ -31,11 +32,42 @@ type Patch struct {
 	size int
 	code []byte
 	base uintptr
+	// proxy is the proxy function pointer which calls the code in the page above
+	proxy reflect.Value
 }
 
+// livePatches are the patches in force of each address, the latest last.
+var (
+	livePatches     = map[uintptr][]*Patch{}
+	livePatchesLock sync.Mutex
+)
+
 // Unpatch restores the patched function to the original function.
+//
+// If the function has been patched again since, the later patch stays in force, and it's the function under this patch
+// that it will restore and that its proxy calls from now on.
 func (p *Patch) Unpatch() {
-	mem.WriteWithSTW(p.base, p.code[:p.size])
+	livePatchesLock.Lock()
+	defer livePatchesLock.Unlock()
+	patches := livePatches[p.base]
+	for i := range patches {
+		if patches[i] != p {
+			continue
+		}
+		if i+1 < len(patches) {
+			next := patches[i+1]
+			next.code, p.code = p.code, next.code
+			next.size, p.size = p.size, next.size
+			fn.InjectInto(next.proxy, next.code)
+		} else {
+			mem.WriteWithSTW(p.base, p.code[:p.size])
+		}
+		livePatches[p.base] = append(patches[:i:i], patches[i+1:]...)
+		break
+	}
+	if len(livePatches[p.base]) == 0 {
+		delete(livePatches, p.base)
+	}
 	common.ReleasePage(p.code)
 }
 
@@ -45,6 +77,9 @@ func PatchValue(target, hook, proxy reflect.Value, unsafe, generic bool) *Patch
 	tool.Assert(hook.Kind() == reflect.Func, "'%s' is not a function", hook.Kind())
 	tool.Assert(proxy.Kind() == reflect.Ptr, "'%v' is not a function pointer", proxy.Kind())
 
+	livePatchesLock.Lock()
+	defer livePatchesLock.Unlock()
+
 	targetAddr := target.Pointer()
 	if generic {
 		// we assume that generic call/bl op is located in first 200 bytes of codes from targetAddr
@@ -72,7 +107,9 @@ func PatchValue(target, hook, proxy reflect.Value, unsafe, generic bool) *Patch
 	// replace target function codes before the cutting point
 	mem.WriteWithSTW(targetAddr, hookCode)
 
-	return &Patch{base: targetAddr, code: proxyCode, size: cuttingIdx}
+	patch := &Patch{base: targetAddr, code: proxyCode, size: cuttingIdx, proxy: proxy}
+	livePatches[targetAddr] = append(livePatches[targetAddr], patch)
+	return patch
 }
 
 func PatchFunc(fn, hook, proxy interface{}, unsafe bool) *Patch {
-- 
2.43.0


From 930bd5824c99cb5da01330151882ee9245c62666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:09 +0000
Subject: [PATCH 07/18] fix: the origin function must stay callable after its
 mock is unpatched

UnPatch unmaps the page the origin function jumps to, so calling it afterwards (also from a hook that has just unpatched its
own mock) crashed the process. Let it call the target itself from then on.
---
 mock.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mock.go b/mock.go
index a4f94c6..0aab29a 100644
--- a/mock.go
+++ b/mock.go
@@ -321,6 +321,18 @@ func (mocker *Mocker) buildProxy() func(args []reflect.Value) {
 	return proxyCallerSetter
 }
 
+// resetProxy makes the proxy call the target itself, because the code it has called is released by unpatching, while the
+// origin function may still be called afterwards
+func (mocker *Mocker) resetProxy() {
+	origin := mocker.target
+	if mocker.builder.generic {
+		origin = reflect.MakeFunc(mocker.builder.hookType(), func(args []reflect.Value) []reflect.Value {
+			return tool.ReflectCall(mocker.target, args[1:])
+		})
+	}
+	reflect.ValueOf(mocker.proxy).Elem().Set(origin)
+}
+
 func (mocker *Mocker) Patch() *Mocker {
 	mocker.lock.Lock()
 	defer mocker.lock.Unlock()
@@ -343,6 +355,7 @@ func (mocker *Mocker) UnPatch() *Mocker {
 		return mocker
 	}
 	mocker.patch.Unpatch()
+	mocker.resetProxy()
 	mocker.isPatched = false
 	removeFromGlobal(mocker)
 	atomic.StoreInt64(&mocker.times, 0)
-- 
2.43.0


From e21b9f64be082d41d61c20aa5c3f1e2c6390ba8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:20 +0000
Subject: [PATCH 08/18] fix: refuse a condition taking GenericInfo for a
 non-generic target when it is declared

'To' already refuses it; with 'When' the mock was built, and calling the target panicked.
---
 mock_condition.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mock_condition.go b/mock_condition.go
index 4105790..428e2a5 100644
--- a/mock_condition.go
+++ b/mock_condition.go
@@ -51,6 +51,7 @@ func (m *mockCondition) SetWhenForce(when interface{}) {
 	}
 
 	hasGeneric, hasReceiver := m.checkGenericAndReceiver(wVal.Type())
+	tool.Assert(m.builder.generic || !hasGeneric, "non-generic function should not have 'GenericInfo' as first argument")
 	whenType := reflect.FuncOf(inTypes, []reflect.Type{out1}, hookType.IsVariadic())
 	m.when = reflect.MakeFunc(whenType, func(args []reflect.Value) (results []reflect.Value) {
 		results = tool.ReflectCall(wVal, m.adaptArgsForReflectCall(args, hasGeneric, hasReceiver))
-- 
2.43.0


From 33bd127e1cf6a82a2fe43c599dd43f755eef3c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:03 +0000
Subject: [PATCH 09/18] fix: unpatching the outer mock of a variable must not
 undo the inner one

It wrote the original value over the inner mock's, and the inner one then restored the outer mock's value for good.
---
 mock_var.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/mock_var.go b/mock_var.go
index 9e7639c..57cca0d 100644
--- a/mock_var.go
+++ b/mock_var.go
@@ -89,7 +89,10 @@ func (mocker *MockerVar) UnPatch() *MockerVar {
 	defer mocker.lock.Unlock()
 	if mocker.isPatched {
 		mocker.isPatched = false
-		if mocker.origin == nil {
+		if later := mocker.later(); later != nil {
+			// the later mock stays in force, and restores our original value in the end
+			later.origin = mocker.origin
+		} else if mocker.origin == nil {
 			mocker.target.Set(reflect.Zero(mocker.targetType))
 		} else {
 			mocker.target.Set(reflect.ValueOf(mocker.origin))
@@ -100,6 +103,19 @@ func (mocker *MockerVar) UnPatch() *MockerVar {
 	return mocker
 }
 
+// later finds the next mock of the same variable, built in an inner 'PatchConvey'
+func (mocker *MockerVar) later() *MockerVar {
+	found := false
+	for _, scope := range gMocker {
+		m, ok := scope[mocker.key()].(*MockerVar)
+		if found && ok && m.targetType == mocker.targetType {
+			return m
+		}
+		found = found || m == mocker
+	}
+	return nil
+}
+
 func (mocker *MockerVar) key() uintptr {
 	return mocker.target.Addr().Pointer()
 }
-- 
2.43.0


From 7dd1dcad98a406e507aa79ce388fcbc67fa05458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:23 +0000
Subject: [PATCH 10/18] fix: release the mocks of a scope in the reverse order

They were released in the random order of a map, so that a struct variable and its field, mocked in the same scope, were
restored to each other's mock value every now and then.
---
 convey.go   | 27 +++++++++++++++++++++++++--
 mock.go     |  1 +
 mock_var.go |  2 ++
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/convey.go b/convey.go
index 94fe060..7fdaff1 100644
--- a/convey.go
+++ b/convey.go
@@ -18,6 +18,7 @@ package mockey
 
 import (
 	"reflect"
+	"sort"
 
 	"github.com/bytedance/mockey/internal/tool"
 	"github.com/smartystreets/goconvey/convey"
@@ -25,6 +26,16 @@ import (
 
 var gMocker = make([]map[uintptr]mockerInstance, 0)
 
+// gOrder counts the mocks which have been added to gMocker
+var gOrder patchOrder
+
+// patchOrder is the position of a mock in the order in which they were added to gMocker
+type patchOrder int
+
+func (o *patchOrder) order() *patchOrder {
+	return o
+}
+
 func init() {
 	gMocker = append(gMocker, make(map[uintptr]mockerInstance))
 }
@@ -35,7 +46,7 @@ func PatchConvey(items ...interface{}) {
 			items[i] = reflect.MakeFunc(reflect.TypeOf(item), func(args []reflect.Value) []reflect.Value {
 				gMocker = append(gMocker, make(map[uintptr]mockerInstance))
 				defer func() {
-					for _, mocker := range gMocker[len(gMocker)-1] {
+					for _, mocker := range latestFirst(gMocker[len(gMocker)-1]) {
 						mocker.unPatch()
 					}
 					gMocker = gMocker[:len(gMocker)-1]
@@ -59,6 +70,18 @@ func assertNotReMock(mocker mockerInstance) {
 func addToGlobal(mocker mockerInstance) {
 	tool.DebugPrintf("%v added\n", mocker.key())
 	gMocker[len(gMocker)-1][mocker.key()] = mocker
+	gOrder++
+	*mocker.order() = gOrder
+}
+
+// latestFirst sorts the mockers of a scope so that overlapping ones (a struct variable and its field) restore each other
+func latestFirst(scope map[uintptr]mockerInstance) []mockerInstance {
+	mockers := make([]mockerInstance, 0, len(scope))
+	for _, mocker := range scope {
+		mockers = append(mockers, mocker)
+	}
+	sort.Slice(mockers, func(i, j int) bool { return *mockers[i].order() > *mockers[j].order() })
+	return mockers
 }
 
 func removeFromGlobal(mocker mockerInstance) {
@@ -97,7 +120,7 @@ func removeFromGlobal(mocker mockerInstance) {
 //		}
 //	})
 func UnPatchAll() {
-	for _, mocker := range gMocker[len(gMocker)-1] {
+	for _, mocker := range latestFirst(gMocker[len(gMocker)-1]) {
 		mocker.unPatch()
 	}
 }
diff --git a/mock.go b/mock.go
index 0aab29a..193eef6 100644
--- a/mock.go
+++ b/mock.go
@@ -34,6 +34,7 @@ const (
 )
 
 type Mocker struct {
+	patchOrder
 	target    reflect.Value // mock target value
 	hook      reflect.Value // mock hook
 	proxy     interface{}   // proxy function to origin
diff --git a/mock_var.go b/mock_var.go
index 57cca0d..1e5ce41 100644
--- a/mock_var.go
+++ b/mock_var.go
@@ -27,11 +27,13 @@ type mockerInstance interface {
 	key() uintptr
 	name() string
 	unPatch()
+	order() *patchOrder
 
 	caller() tool.CallerInfo
 }
 
 type MockerVar struct {
+	patchOrder
 	target     reflect.Value // 目标变量地址
 	hook       reflect.Value // mock变量
 	targetType reflect.Type
-- 
2.43.0


From 87e81061bc197c7b9e21b0a097b51b70adb87948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 11/18] fix: a variable mock must restore the value that the
 variable held when it was patched

The value was only taken once, by MockValue: patching again after the variable had got another value (an outer mock of it
had been unpatched meanwhile, say) made UnPatch restore the old one.
---
 mock_var.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mock_var.go b/mock_var.go
index 1e5ce41..1fbf19e 100644
--- a/mock_var.go
+++ b/mock_var.go
@@ -76,6 +76,7 @@ func (mocker *MockerVar) Patch() *MockerVar {
 
 	if !mocker.isPatched {
 		assertNotReMock(mocker)
+		mocker.origin = mocker.target.Interface()
 		mocker.target.Set(mocker.hook)
 		mocker.isPatched = true
 		addToGlobal(mocker)
-- 
2.43.0


From cc5522fdfe204ab99a9b636e6d521eec8233c309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:39 +0000
Subject: [PATCH 12/18] fix: hooks of methods of generic types must get the
 receiver, not the dictionary

---
 internal/monkey/patch.go | 23 +++++++++++++++++++--
 mock.go                  | 43 ++++++++++++++++++++++++++++++++++------
 2 files changed, 58 insertions(+), 8 deletions(-)

diff --git a/internal/monkey/patch.go b/internal/monkey/patch.go
index ea41eb6..c1ba616 100644
--- a/internal/monkey/patch.go
+++ b/internal/monkey/patch.go
@@ -18,6 +18,8 @@ package monkey
 
 import (
 	"reflect"
+	"runtime"
+	"strings"
 	"sync"
 
 	"github.com/bytedance/mockey/internal/monkey/common"
@@ -82,8 +84,7 @@ func PatchValue(target, hook, proxy reflect.Value, unsafe, generic bool) *Patch
 
 	targetAddr := target.Pointer()
 	if generic {
-		// we assume that generic call/bl op is located in first 200 bytes of codes from targetAddr
-		targetAddr = inst.GetGenericJumpAddr(targetAddr, 10000)
+		targetAddr = genericAddr(target)
 	}
 	// The first few bytes of the target function code
 	const bufSize = 64
@@ -112,6 +113,24 @@ func PatchValue(target, hook, proxy reflect.Value, unsafe, generic bool) *Patch
 	return patch
 }
 
+// genericAddr is the address of the code that an instantiated generic function calls
+func genericAddr(target reflect.Value) uintptr {
+	// we assume that generic call/bl op is located in first 200 bytes of codes from targetAddr
+	return inst.GetGenericJumpAddr(target.Pointer(), 10000)
+}
+
+// IsGenericMethod tells by the name of its code whether an instantiated generic function is a method: the code of a method
+// is "pkg.Type[...].Method" or "pkg.(*Type[...]).Method", that of a function "pkg.Func[...]"
+func IsGenericMethod(target reflect.Value) bool {
+	f := runtime.FuncForPC(genericAddr(target))
+	if f == nil {
+		return false
+	}
+	name := f.Name()
+	typeArgsEnd := strings.LastIndexByte(name, ']')
+	return typeArgsEnd >= 0 && strings.IndexByte(name[typeArgsEnd:], '.') >= 0
+}
+
 func PatchFunc(fn, hook, proxy interface{}, unsafe bool) *Patch {
 	vv := reflect.ValueOf(fn)
 	tool.Assert(vv.Kind() == reflect.Func, "'%v' is not a function", fn)
diff --git a/mock.go b/mock.go
index 193eef6..b483b91 100644
--- a/mock.go
+++ b/mock.go
@@ -56,6 +56,7 @@ type MockBuilder struct {
 	gId             int64
 	unsafe          bool
 	generic         bool
+	genericMethod   bool // a method of a generic type
 }
 
 // Mock mocks target function
@@ -100,6 +101,34 @@ func (builder *MockBuilder) hookType() reflect.Type {
 	return targetType
 }
 
+// codeType returns the type of the code to be patched, which differs from hookType for the methods of generic types: they
+// take the receiver before the GenericInfo
+func (builder *MockBuilder) codeType() reflect.Type {
+	hookType := builder.hookType()
+	if !builder.genericMethod {
+		return hookType
+	}
+	in, out := []reflect.Type{}, []reflect.Type{}
+	for i := 0; i < hookType.NumIn(); i++ {
+		in = append(in, hookType.In(i))
+	}
+	for i := 0; i < hookType.NumOut(); i++ {
+		out = append(out, hookType.Out(i))
+	}
+	in[0], in[1] = in[1], in[0]
+	return reflect.FuncOf(in, out, hookType.IsVariadic())
+}
+
+// codeArgs converts arguments of hookType to arguments of codeType, and the other way round
+func (builder *MockBuilder) codeArgs(args []reflect.Value) []reflect.Value {
+	if !builder.genericMethod {
+		return args
+	}
+	args = append([]reflect.Value{}, args...)
+	args[0], args[1] = args[1], args[0]
+	return args
+}
+
 func (builder *MockBuilder) resetCondition() *MockBuilder {
 	builder.conditions = []*mockCondition{builder.newCondition()} // at least 1 condition is needed
 	return builder
@@ -214,6 +243,7 @@ func (builder *MockBuilder) FilterGoRoutine(filter FilterGoroutineType, gId int6
 
 func (builder *MockBuilder) Build() *Mocker {
 	mocker := Mocker{target: reflect.ValueOf(builder.target), builder: builder}
+	builder.genericMethod = builder.generic && monkey.IsGenericMethod(mocker.target)
 	mocker.buildHook()
 	mocker.Patch()
 	return &mocker
@@ -238,7 +268,7 @@ func (mocker *Mocker) buildHook() {
 	proxySetter := mocker.buildProxy()
 
 	originExec := func(args []reflect.Value) []reflect.Value {
-		return tool.ReflectCall(reflect.ValueOf(mocker.proxy).Elem(), args)
+		return tool.ReflectCall(reflect.ValueOf(mocker.proxy).Elem(), mocker.builder.codeArgs(args))
 	}
 
 	match := []func(args []reflect.Value) bool{}
@@ -266,7 +296,8 @@ func (mocker *Mocker) buildHook() {
 		}
 	}
 
-	mockerHook := reflect.MakeFunc(mocker.builder.hookType(), func(args []reflect.Value) []reflect.Value {
+	mockerHook := reflect.MakeFunc(mocker.builder.codeType(), func(args []reflect.Value) []reflect.Value {
+		args = mocker.builder.codeArgs(args)
 		proxySetter(args) // 设置origin调用proxy
 
 		mocker.access()
@@ -297,7 +328,7 @@ func (mocker *Mocker) buildHook() {
 
 // buildProx create a proxyCaller which could call origin directly
 func (mocker *Mocker) buildProxy() func(args []reflect.Value) {
-	proxy := reflect.New(mocker.builder.hookType())
+	proxy := reflect.New(mocker.builder.codeType())
 
 	proxyCallerSetter := func(args []reflect.Value) {}
 	if mocker.builder.proxyCaller != nil {
@@ -314,7 +345,7 @@ func (mocker *Mocker) buildProxy() func(args []reflect.Value) {
 		}
 		proxyCallerSetter = func(args []reflect.Value) {
 			pElem.Set(reflect.MakeFunc(pElem.Type(), func(innerArgs []reflect.Value) (results []reflect.Value) {
-				return tool.ReflectCall(proxy.Elem(), append(args[0:shift:shift], innerArgs...))
+				return tool.ReflectCall(proxy.Elem(), mocker.builder.codeArgs(append(args[0:shift:shift], innerArgs...)))
 			}))
 		}
 	}
@@ -327,8 +358,8 @@ func (mocker *Mocker) buildProxy() func(args []reflect.Value) {
 func (mocker *Mocker) resetProxy() {
 	origin := mocker.target
 	if mocker.builder.generic {
-		origin = reflect.MakeFunc(mocker.builder.hookType(), func(args []reflect.Value) []reflect.Value {
-			return tool.ReflectCall(mocker.target, args[1:])
+		origin = reflect.MakeFunc(mocker.builder.codeType(), func(args []reflect.Value) []reflect.Value {
+			return tool.ReflectCall(mocker.target, mocker.builder.codeArgs(args)[1:])
 		})
 	}
 	reflect.ValueOf(mocker.proxy).Elem().Set(origin)
-- 
2.43.0


From cda9a74c9af7850f44f10f2b26089601ab30b3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:24 +0000
Subject: [PATCH 13/18] fix: PatchConvey must accept a nil action (a pending
 scope) as convey.Convey does

---
 convey.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/convey.go b/convey.go
index 7fdaff1..7a8f4a9 100644
--- a/convey.go
+++ b/convey.go
@@ -42,7 +42,7 @@ func init() {
 
 func PatchConvey(items ...interface{}) {
 	for i, item := range items {
-		if reflect.TypeOf(item).Kind() == reflect.Func {
+		if item != nil && reflect.TypeOf(item).Kind() == reflect.Func {
 			items[i] = reflect.MakeFunc(reflect.TypeOf(item), func(args []reflect.Value) []reflect.Value {
 				gMocker = append(gMocker, make(map[uintptr]mockerInstance))
 				defer func() {
-- 
2.43.0


From 4e066386e5f023c3ffd044a5f3619f157b47108c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:42 +0000
Subject: [PATCH 14/18] fix: GetMethod must find unexported methods of named
 slices, arrays, channels and basic types

---
 internal/unsafereflect/type.go | 44 +++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/internal/unsafereflect/type.go b/internal/unsafereflect/type.go
index 821c736..373b240 100644
--- a/internal/unsafereflect/type.go
+++ b/internal/unsafereflect/type.go
@@ -150,6 +150,27 @@ func add(p unsafe.Pointer, x uintptr, whySafe string) unsafe.Pointer {
 	return unsafe.Pointer(uintptr(p) + x)
 }
 
+// sliceType represents a slice type.
+type sliceType struct {
+	rtype
+	_ *rtype // unused slice element type
+}
+
+// arrayType represents a fixed array type.
+type arrayType struct {
+	rtype
+	_ *rtype  // unused array element type
+	_ *rtype  // unused slice type
+	_ uintptr // unused length
+}
+
+// chanType represents a channel type.
+type chanType struct {
+	rtype
+	_ *rtype  // unused channel element type
+	_ uintptr // unused channel direction
+}
+
 // interfaceType represents an interface type.
 type interfaceType struct {
 	rtype
@@ -187,8 +208,29 @@ func (t *rtype) methods() []method {
 			structType
 			u uncommonType
 		})(unsafe.Pointer(t)).u.methods()
-	default:
+	case reflect.Slice:
+		return (*struct {
+			sliceType
+			u uncommonType
+		})(unsafe.Pointer(t)).u.methods()
+	case reflect.Array:
+		return (*struct {
+			arrayType
+			u uncommonType
+		})(unsafe.Pointer(t)).u.methods()
+	case reflect.Chan:
+		return (*struct {
+			chanType
+			u uncommonType
+		})(unsafe.Pointer(t)).u.methods()
+	case reflect.Map:
+		// the layout of map types depends on the go version
 		return nil
+	default:
+		return (*struct {
+			rtype
+			u uncommonType
+		})(unsafe.Pointer(t)).u.methods()
 	}
 }
 
-- 
2.43.0


From fd3eb53c5fb471af18e2b922607f0b8cb07adf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:01 +0000
Subject: [PATCH 15/18] fix: print no debug messages while the world is stopped

---
 internal/monkey/mem/write.go        | 3 +++
 internal/monkey/mem/write_darwin.go | 5 -----
 internal/monkey/mem/write_linux.go  | 5 -----
 3 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/internal/monkey/mem/write.go b/internal/monkey/mem/write.go
index 5d71863..07172d9 100644
--- a/internal/monkey/mem/write.go
+++ b/internal/monkey/mem/write.go
@@ -25,6 +25,8 @@ import (
 // WriteWithSTW copies data bytes to the target address and replaces the original bytes, during which it will stop the
 // world (only the current goroutine's P is running).
 func WriteWithSTW(target uintptr, data []byte) {
+	// no printing while the world is stopped: its system call would never return
+	tool.DebugPrintf("Write: target page(0x%x), len(%v)\n", common.PageOf(target), len(data))
 	ctx := stw.NewSTWCtx()
 	ctx.StopTheWorld()
 
@@ -46,4 +48,5 @@ func WriteWithSTW(target uintptr, data []byte) {
 	}
 
 	ctx.StartTheWorld()
+	tool.DebugPrintf("Write end\n")
 }
diff --git a/internal/monkey/mem/write_darwin.go b/internal/monkey/mem/write_darwin.go
index 529a300..2f23723 100644
--- a/internal/monkey/mem/write_darwin.go
+++ b/internal/monkey/mem/write_darwin.go
@@ -18,22 +18,17 @@ package mem
 
 import (
 	"fmt"
-	"reflect"
 	"syscall"
 
 	"github.com/bytedance/mockey/internal/monkey/common"
-	"github.com/bytedance/mockey/internal/tool"
 )
 
 func Write(target uintptr, data []byte) error {
 	targetPage := common.PageOf(target)
-	fnPage := common.PageOf(reflect.ValueOf(write).Pointer())
-	tool.DebugPrintf("Write: target page(0x%x), fn page(0x%x), len(%v)\n", targetPage, fnPage, len(data))
 	res := write(target, common.PtrOf(data), len(data), targetPage, common.PageSize(), syscall.PROT_READ|syscall.PROT_EXEC)
 	if res != 0 {
 		return fmt.Errorf("write failed, code %v", res)
 	}
-	tool.DebugPrintf("Write end(darwin)")
 	return nil
 }
 
diff --git a/internal/monkey/mem/write_linux.go b/internal/monkey/mem/write_linux.go
index cab438c..85cb171 100644
--- a/internal/monkey/mem/write_linux.go
+++ b/internal/monkey/mem/write_linux.go
@@ -18,22 +18,17 @@ package mem
 
 import (
 	"fmt"
-	"reflect"
 	"syscall"
 
 	"github.com/bytedance/mockey/internal/monkey/common"
-	"github.com/bytedance/mockey/internal/tool"
 )
 
 func Write(target uintptr, data []byte) error {
 	targetPage := common.PageOf(target)
-	fnPage := common.PageOf(reflect.ValueOf(write).Pointer())
-	tool.DebugPrintf("Write: target page(0x%x), fn page(0x%x), len(%v)\n", targetPage, fnPage, len(data))
 	res := write(target, common.PtrOf(data), len(data), targetPage, common.PageSize(), syscall.PROT_READ|syscall.PROT_EXEC)
 	if res != 0 {
 		return fmt.Errorf("write failed, code %v", res)
 	}
-	tool.DebugPrintf("Write end(linux)")
 	return nil
 }
 
-- 
2.43.0


From 02c954f6a6c44b449e1223bd08aed8d48029a023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:01 +0000
Subject: [PATCH 16/18] fix: end the debug message of a failed stack walk with
 a newline

---
 internal/tool/caller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tool/caller.go b/internal/tool/caller.go
index c993892..3e377a5 100644
--- a/internal/tool/caller.go
+++ b/internal/tool/caller.go
@@ -39,7 +39,7 @@ func (c CallerInfo) String() string {
 func OuterCaller() (info CallerInfo) {
 	defer func() {
 		if err := recover(); err != nil {
-			DebugPrintf("OuterCaller: get stack failed, err: %v", err)
+			DebugPrintf("OuterCaller: get stack failed, err: %v\n", err)
 			info = CallerInfo(runtime.Frame{File: "Nan"})
 		}
 	}()
-- 
2.43.0


From 282d00c978d1695527ab10a393d168071b8f056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:57 +0000
Subject: [PATCH 17/18] fix: concurrent calls must not write the origin
 variable of the full signature

---
 mock.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/mock.go b/mock.go
index b483b91..1455206 100644
--- a/mock.go
+++ b/mock.go
@@ -20,6 +20,7 @@ import (
 	"reflect"
 	"sync"
 	"sync/atomic"
+	"unsafe"
 
 	"github.com/bytedance/mockey/internal/monkey"
 	"github.com/bytedance/mockey/internal/tool"
@@ -38,6 +39,7 @@ type Mocker struct {
 	target    reflect.Value // mock target value
 	hook      reflect.Value // mock hook
 	proxy     interface{}   // proxy function to origin
+	setOrigin func()        // set origin function, if it is the same for all calls
 	times     int64
 	mockTimes int64
 	patch     *monkey.Patch
@@ -331,6 +333,7 @@ func (mocker *Mocker) buildProxy() func(args []reflect.Value) {
 	proxy := reflect.New(mocker.builder.codeType())
 
 	proxyCallerSetter := func(args []reflect.Value) {}
+	mocker.setOrigin = func() {}
 	if mocker.builder.proxyCaller != nil {
 		pVal := reflect.ValueOf(mocker.builder.proxyCaller)
 		tool.Assert(pVal.Kind() == reflect.Ptr && pVal.Elem().Kind() == reflect.Func, "origin receiver must be a function pointer")
@@ -343,10 +346,25 @@ func (mocker *Mocker) buildProxy() func(args []reflect.Value) {
 		if mocker.missReceiver(mocker.target.Type(), pElem.Interface()) {
 			shift += 1
 		}
-		proxyCallerSetter = func(args []reflect.Value) {
-			pElem.Set(reflect.MakeFunc(pElem.Type(), func(innerArgs []reflect.Value) (results []reflect.Value) {
-				return tool.ReflectCall(proxy.Elem(), mocker.builder.codeArgs(append(args[0:shift:shift], innerArgs...)))
+		if shift == 0 {
+			// the same origin function for all calls: it's written when patching, and in a call only if the variable has been
+			// given another value since (by another mock, for example), so that concurrent calls don't write it
+			origin := reflect.New(pElem.Type())
+			origin.Elem().Set(reflect.MakeFunc(pElem.Type(), func(args []reflect.Value) (results []reflect.Value) {
+				return tool.ReflectCall(proxy.Elem(), args)
 			}))
+			mocker.setOrigin = func() { pElem.Set(origin.Elem()) }
+			proxyCallerSetter = func(args []reflect.Value) {
+				if *(*unsafe.Pointer)(pVal.UnsafePointer()) != *(*unsafe.Pointer)(origin.UnsafePointer()) {
+					mocker.setOrigin()
+				}
+			}
+		} else {
+			proxyCallerSetter = func(args []reflect.Value) {
+				pElem.Set(reflect.MakeFunc(pElem.Type(), func(innerArgs []reflect.Value) (results []reflect.Value) {
+					return tool.ReflectCall(proxy.Elem(), mocker.builder.codeArgs(append(args[0:shift:shift], innerArgs...)))
+				}))
+			}
 		}
 	}
 	mocker.proxy = proxy.Interface()
@@ -374,6 +392,7 @@ func (mocker *Mocker) Patch() *Mocker {
 	assertNotReMock(mocker)
 	mocker.patch = monkey.PatchValue(mocker.target, mocker.hook, reflect.ValueOf(mocker.proxy), mocker.builder.unsafe, mocker.builder.generic)
 	mocker.isPatched = true
+	mocker.setOrigin()
 	addToGlobal(mocker)
 
 	mocker.outerCaller = tool.OuterCaller()
-- 
2.43.0


From c09a94ed3db0c4c25cc4a950dc9a8957ce2b1e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:13 +0000
Subject: [PATCH 18/18] fix: refuse functions that are too short to patch on
 arm64 as well

---
 internal/monkey/inst/disasm_arm64.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/monkey/inst/disasm_arm64.go b/internal/monkey/inst/disasm_arm64.go
index 3c66efc..5f76b3c 100644
--- a/internal/monkey/inst/disasm_arm64.go
+++ b/internal/monkey/inst/disasm_arm64.go
@@ -52,8 +52,18 @@ func calcFnAddrRange(name string, fn func()) (uintptr, uintptr) {
 	return 0, 0
 }
 
+// instLen is the length of every instruction
+const instLen = 4
+
 func Disassemble(code []byte, required int, checkLen bool) int {
 	tool.Assert(len(code) > required, "function is too short to patch")
+	if checkLen {
+		// nothing that follows the end of the function may be overwritten
+		for pos := 0; pos+instLen < required; pos += instLen {
+			inst, err := arm64asm.Decode(code[pos:])
+			tool.Assert(err != nil || inst.Op != arm64asm.RET, "function is too short to patch")
+		}
+	}
 	return required
 }
 
-- 
2.43.0


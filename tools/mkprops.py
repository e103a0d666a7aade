import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","A built mock answers every call, with exact arguments and results",
 "While a mock built with Mock(f).To(hook) or .Return(values) is in force, every call of f, through any form of call (direct, method value or expression, interface, method promoted by embedding, function variable, go, defer, reflection), runs the hook once and f's own body not at all. The hook gets exactly the arguments of the call (with the first argument or receiver included or left out as its signature says, and the variadic slice itself) and the caller gets exactly the hook's results or its panic. Return values are converted to the result types, nil giving the zero value.",
 ["programs","inputs"],"every target signature (any number and kind of parameters and results, variadic or not, value and pointer receivers), every form of call, every argument and result value",
 "The tests mock a few dozen fixed signatures and mostly call them directly with one or two small values; register/stack argument layouts, identity of slices/pointers/NaNs, and other call forms are not reached.",
 ["mock.go","mock_condition.go","internal/monkey/patch.go","internal/tool/call.go"],
 [("hook assembled by reflection","mock.go buildHook"),("receiver/generic adaption of arguments","mock_condition.go checkGenericAndReceiver, adaptArgsForReflectCall"),("conversion of Return values","mock_condition.go SetReturnForce"),("entry code overwritten with a branch to the hook","internal/monkey/patch.go PatchValue")],
 ["arguments seen by the hook","results seen by the caller","whether the original body ran"])
p("C02","Releasing mocks restores the original function exactly, in any order",
 "Once no mock of f is in force any more, however they ended (UnPatch, Release, UnPatchAll or the end of a PatchConvey), every call of f runs the original body again and the machine code of the program is byte for byte what it was. While other mocks of f are still in force, the most recently applied one answers, in whatever order the others were released. Mocking and releasing over and over accumulates no executable memory.",
 ["histories"],"every history of building, patching, unpatching, reconfiguring and releasing mocks of several functions, nested to any depth, with garbage collections in between",
 "The tests release one or two mocks in one fixed order and look at one call afterwards; none compares code bytes or lets stacked mocks go out of order.",
 ["mock.go","convey.go","internal/monkey/patch.go","internal/monkey/mem/write.go","internal/monkey/common/page.go"],
 [("saved entry bytes and code page per patch","internal/monkey/patch.go Patch, Unpatch"),("write to code pages","internal/monkey/mem Write"),("UnPatch/Release","mock.go")],
 ["results of calls after release","text segment bytes","/proc/self/maps"],[("Mocker.isPatched","whether the mock is in force"),("livePatches","patches in force per address")])
p("C03","A mock lives exactly as long as the PatchConvey it was applied in",
 "A mock (of a function or of a variable) applied inside a PatchConvey is in force until that PatchConvey's function ends, whether by returning, by a failed assertion, by a panic or by runtime.Goexit, and is released then, while mocks of the enclosing scopes stay in force and answer again. UnPatchAll releases the mocks of the innermost running PatchConvey (or, outside any, those applied outside) and no others. Apart from this, PatchConvey runs the same bodies in the same order as convey.Convey, and passes on their failures and panics.",
 ["histories"],"every tree of nested PatchConvey scopes, every interleaving of mocking, releasing and UnPatchAll in them, every way their bodies end",
 "TestConvey covers a handful of fixed nestings whose bodies all return normally.",
 ["convey.go"],[("stack of scopes","convey.go gMocker"),("deferred release","convey.go PatchConvey"),("UnPatchAll","convey.go UnPatchAll")],
 ["calls and variables inside and after each scope","order in which bodies run"],[("gMocker","mocks registered per scope")])
p("C04","Conditions: the first match decides, each predicate runs at most once",
 "For every call that reaches a mock, its conditions are tried in the order they were declared, and the first one whose When predicate returns true, or that has no predicate, decides the call. Predicates are called with exactly the arguments of the call, at most once each, and none after the deciding one; what a predicate does itself (calling mocked functions, this one included, panicking) does not change that; the deciding condition's To or Return is executed exactly once and no other. A call that matches no condition, or one with a When but neither To nor Return, gets the original function.",
 ["inputs","histories"],"every list of conditions (When before or after To/Return, last one incomplete, receiver included or not), every outcome of the predicates, every sequence of calls",
 "TestMultiCondition and friends use two conditions and constant predicates on an int; evaluation order, count and arguments of the predicates are not observed.",
 ["mock.go","mock_condition.go"],[("condition chain","mock.go buildHook, lastCondition"),("predicate adaption","mock_condition.go SetWhenForce"),("completeness of a condition","mock_condition.go Complete")],
 ["sequence of predicate and hook executions","results"])
p("C05","The original stays reachable and faithful behind a mock",
 "A call handed to the original function while it is mocked (no condition matches, the goroutine filter excludes it, or it is made through the function variable given to Origin) runs the original code exactly once with exactly the given arguments and hands back exactly its results or panic. Calling the origin function never changes the arguments of the mocked call it is made from, and it may be called any number of times, with any arguments, from nested and recursive mocked calls, also after the mock has been released. Calls made from inside the original to the mocked target are mocked again.",
 ["inputs","histories"],"every target signature, every argument value, every nesting and repetition of origin calls, before and after release",
 "Tests call the origin once, with the same arguments, on three signatures; nothing checks argument aliasing, several origin calls in one hook, nested calls or calls after release.",
 ["mock.go","internal/monkey/patch.go","internal/monkey/fn/inject.go","internal/tool/call.go"],[("proxy page: displaced entry code and branch back","internal/monkey/patch.go PatchValue"),("origin function assembled by reflection","mock.go buildProxy"),("pass-through","mock.go originExec")],
 ["arguments seen by the original body","results seen by the caller"])
p("C06","Times and MockTimes count exactly",
 "Times() of a mock is the number of calls of its target that reached it since it was last put in force, and MockTimes() the number of those that executed a To or Return of the mock: calls passed to the original (no match, goroutine filter, condition without To/Return) count in the former only, a hook that panics counts in both, calls through the origin function count in neither. Both are exact under any number of concurrent callers and are zero after the mock is unpatched, released or reconfigured.",
 ["histories","schedules"],"every sequence of calls, reconfigurations and releases, and every number of goroutines calling concurrently",
 "Tests look at the counters after a few sequential calls; concurrent callers, panicking hooks, nested calls and resets are not sampled.",
 ["mock.go"],[("counters","mock.go access, mock, UnPatch")],["Times(), MockTimes() after every step"],[("times, mockTimes","calls reaching the mock / executing a hook")])
p("C07","Goroutine filters select exactly the right callers",
 "A mock with IncludeCurrentGoRoutine (or FilterGoRoutine(Include, id)) answers only calls made on that goroutine, and one with ExcludeCurrentGoRoutine (or Exclude) only calls made on other goroutines; every other call gets the original function, without any predicate being evaluated, and still counts in Times. The filter set last is the one that holds, and changing it on a built mock takes effect at once. GetGoroutineId returns the id of the calling goroutine, the one the runtime shows in its stack traces.",
 ["histories","schedules"],"every assignment of builders, reconfigurations and calls to goroutines, every filter kind and id, many goroutines alive or finished",
 "TestFilterGoRoutine uses two goroutines and the three filters one after another; the id is compared on one goroutine.",
 ["mock.go","utils.go","internal/tool/goroutine.go"],[("filter","mock.go buildHook, FilterGoRoutine"),("id read from the runtime g","internal/tool/goroutine.go GetGoroutineID")],
 ["which calls are mocked, per goroutine","GetGoroutineId() vs runtime.Stack"])
p("C08","Sequences return their values in order, as often as asked, and start over",
 "A mock returning Sequence(v1).Times(n1).Then(v2).Times(n2)... gives, on its mocked calls counted from the first, v1 n1 times, then v2 n2 times, and so on, starting over with v1 after the last (a missing Times means once). Only calls that execute this Return take a value; unmatched, filtered and origin calls do not. With concurrent callers every value is handed out exactly as often as if the calls had been made one after the other.",
 ["inputs","histories","schedules"],"every sequence shape and element types, every history of calls, any number of concurrent callers",
 "TestSequenceOpt runs two fixed sequences for less than two rounds on one goroutine.",
 ["mock_sequence.go","mock_condition.go"],[("cursor under a lock","mock_sequence.go GetNext"),("value fetched per executed Return","mock_condition.go SetReturnForce")],["returned values"],[("curV, curT","next value and how often it has been returned")])
p("C09","Variable mocks set the value and restore exactly the original",
 "MockValue(&v).To(x) makes v equal x (the zero value for nil) for any type of variable and any assignable x, and once it has been unpatched, or its PatchConvey has ended or UnPatchAll was called, v holds again exactly what it held before, the very same pointers, slices, maps and functions included. Patch and UnPatch are idempotent and can be repeated alternately; nested mocks of one variable, undone in any order, and mocks of a variable and of parts of it, undone in reverse order or by the end of their scope, leave the original in the end. A value that is not assignable is refused with a panic and leaves the variable as it was.",
 ["inputs","histories"],"every variable type and value, every history of mock, patch, unpatch and scope exit over several overlapping variables",
 "Tests mock an int, a string, an interface and a struct variable once each.",
 ["mock_var.go","convey.go"],[("saved origin value","mock_var.go MockValue, UnPatch"),("assignability check","mock_var.go To"),("release order","convey.go")],["value of the variable after each step"],[("origin","value to restore")])
p("C10","Reconfiguring a built mock replaces exactly what is asked; Patch is idempotent",
 "On a built mock with at most one condition, When, To and Return replace exactly that part of the condition, and Origin and the goroutine filters replace exactly those, on mocks of any condition count; the new behaviour holds from the next call on, in force even if the mock was unpatched before. When, To and Return on a mock with several conditions are refused with a panic and change nothing. Patch on a mock in force and UnPatch on one that is not do nothing; UnPatch followed by Patch brings the same behaviour back; after Release the builder starts from no conditions and can be built again.",
 ["histories"],"every history of When/To/Return/Origin/filter/Patch/UnPatch/Release/Build on mocks of any shape, with calls in between",
 "Tests exercise each reconfiguration once, on a mock that has just been built.",
 ["mock.go","mock_condition.go"],[("rePatch","mock.go"),("SetWhenForce/SetToForce/SetReturnForce","mock_condition.go"),("Release","mock.go")],["calls after each step","panics"],[("builder.conditions","conditions of the mock")])
p("C11","Mocking twice in one scope is refused, names the first, and changes nothing",
 "Building or patching a mock of a function, method or variable that already has a mock in force applied in the same scope (the innermost PatchConvey, or outside any) panics with a message that contains 're-mock' and the file:line at which the mock in force was applied, and leaves that mock in force unchanged. In a nested PatchConvey, after the first one is released, or for different functions, methods or variables (at different addresses), it is accepted.",
 ["histories"],"every history of builds, releases, scopes and re-mocks over functions, methods, and variables",
 "TestRemock tries one function twice and checks that it panics.",
 ["convey.go","mock.go","mock_var.go","internal/tool/caller.go"],[("registry keyed by target address","convey.go assertNotReMock, addToGlobal, removeFromGlobal"),("place of the mock","internal/tool/caller.go OuterCaller")],["panic message","behaviour of the mock in force after the refusal"],[("gMocker","mocks registered per scope")])
p("C12","Ill-typed mock definitions are refused before they take effect",
 "A To or When function whose parameters are neither those of the target nor those without its first one (after an optional GenericInfo for generic targets only), a When that does not return exactly one bool, a variadic mismatch, an Origin that is not a pointer to a function with such parameters, a part of a condition set twice, a target that is not a function, and a Sequence Times below one are refused with a panic, and the target stays unmocked. Every well-typed definition is accepted. A Return with the wrong number of values or values that cannot be converted panics in the calls that would use it, without corrupting the target.",
 ["inputs","programs"],"every target signature and every definition derived from it by mutating parameters, results, variadicity, receiver and position",
 "Tests contain a few hand-written illegal definitions for one or two signatures.",
 ["mock.go","mock_condition.go","internal/tool/check.go"],[("parameter comparison","internal/tool/check.go CheckFuncArgs"),("checks of When/To","mock_condition.go"),("checks of Origin","mock.go missReceiver"),("checks of results","internal/tool/check.go CheckReturnType")],["panic or acceptance","behaviour of the target afterwards"])
p("C13","GetMethod finds the method that the instance's type declares or promotes",
 "For every instance and every method of its type, declared on the value or the pointer, promoted through any depth of embedded structs, pointers and non-nil interfaces, exported or not, GetMethod returns a function whose mock intercepts calls of that method on such instances (and only of that method), and for a field of function type the function stored in it. A name that is neither a method nor such a field, and a nil instance, panic with a message naming it.",
 ["programs","inputs"],"every composition of struct types by embedding, with methods of both receiver kinds and names exported or not, for value, pointer and interface-typed instances (without shadowed names)",
 "Tests use about a dozen fixed types.",
 ["utils.go","internal/unsafereflect/type.go"],[("embedded structs first","utils.go getNestedMethod"),("function-typed fields","utils.go getFieldMethod"),("unexported methods read from type metadata","internal/unsafereflect MethodByName")],["which calls the mock of the returned function intercepts","panic message"])
p("C14","Generic mocks intercept their instantiation and see its type arguments",
 "A mock of an instantiated generic function or method built with MockGeneric (or OptGeneric) intercepts every call of that instantiation, direct or through a function value, with exact arguments and results, and no call of instantiations whose type arguments have a different underlying layout; When, To, Return, Origin, counters and release behave as for ordinary functions. A hook or predicate that takes GenericInfo gets one whose UsedParamType(i) is the i-th distinct type that its instantiation takes from its type arguments (receiver type, parameter types, then the types its body uses, in order), and which is Equal for calls of the same instantiation only, also among instantiations sharing their code (of functions that use their type parameters at all).",
 ["programs","inputs"],"every instantiation of generic functions and methods over many type arguments, with hooks with and without GenericInfo and receiver",
 "Tests cover a few instantiations with fixed values, each mocked on its own.",
 ["mock_generics.go","mock_condition.go","internal/monkey/patch.go","internal/monkey/inst/disasm_amd64.go","internal/monkey/inst/generic_extra.go"],[("finding the shared body","internal/monkey/inst GetGenericJumpAddr"),("dictionary argument","mock.go hookType, mock_condition.go adaptArgsForReflectCall"),("type from the dictionary","mock_generics.go UsedParamType")],["interception per instantiation","GenericInfo values"])
p("C15","Mocking changes nothing but the entries of the mocked functions",
 "At any time the program's machine code differs from the original only in the first few instructions of the functions with a mock in force, and its code pages are readable and executable but never left writable. Code running on other goroutines, also on the very page being written, is undisturbed by mocking and releasing, in the default build and in the one with stop-the-world. The memory following or preceding the written bytes, also across a page boundary, is untouched.",
 ["histories","schedules"],"every set of mocked functions and history of mocking and releasing, with other goroutines running functions from the same code pages",
 "Tests observe only the mocked function itself, never its neighbours, page permissions, or concurrent execution.",
 ["internal/monkey/mem/write.go","internal/monkey/mem/write_linux.go","internal/monkey/mem/write_linux_amd64.s","internal/monkey/patch.go","internal/monkey/common/runtime_link/stw"],[("page-wise write with mprotect","internal/monkey/mem"),("stop the world","internal/monkey/common/runtime_link/stw")],["text segment bytes","/proc/self/maps","results on busy goroutines"])
p("C16","Any entry code is cut at instruction boundaries, wherever it lies",
 "For every function whose entry consists of position-independent instructions of whatever lengths (not using the closure register), at any address and offset in a page, mocking it replaces calls, the original called through the mock computes exactly what the function computed before, and releasing restores its code. A function that returns before there is room for the branch is refused by Mock with a panic, its code untouched, and is accepted by MockUnsafe, whose mock replaces calls.",
 ["programs","inputs"],"every sequence of position-independent instructions (lengths 1 to 15 bytes) at the entry, at every page offset, including entries crossing a page boundary",
 "The tests only patch what the compiler happens to emit: two or three prologue shapes, none across a page boundary.",
 ["internal/monkey/patch.go","internal/monkey/inst/disasm_amd64.go","internal/monkey/inst/inst_amd64.go","internal/monkey/mem/write.go"],[("cutting point","internal/monkey/inst Disassemble"),("branch code","internal/monkey/inst BranchTo, BranchInto"),("page-wise write","internal/monkey/mem WriteWithSTW")],["results through mock, origin and after release","bytes around the entry"])
p("C17","Concurrent callers of a mocked function do not disturb each other",
 "When any number of goroutines call mocked functions at the same time, each call's predicates, hook and original see that call's own arguments, and each caller gets its own call's results or panic, mixing calls that are mocked, passed through and made through an origin function with full signature, which is there from the patch on. This holds while other goroutines mock and release other functions one at a time, while garbage is collected, and mockey performs no unsynchronised memory access of its own (as judged by the race detector) when callers only call.",
 ["schedules","histories"],"every number of goroutines, mix of call kinds, and interleaving",
 "No test calls a mocked function from several goroutines at once and compares arguments and results per call; the race detector is not run on such callers.",
 ["mock.go","mock_condition.go","mock_sequence.go","internal/monkey/patch.go"],[("per-call state of the hook","mock.go buildHook, buildProxy"),("argument adaption","mock_condition.go adaptArgsForReflectCall")],["per-call arguments and results","race reports"])
p("C18","Start-up warns exactly when inlining is on; diagnostics change nothing",
 "A program importing mockey prints the warning about -gcflags at start-up if and only if it and mockey were compiled with inlining enabled and MOCKEY_CHECK_GCFLAGS is not 'false', whatever other compiler flags are used, and runs on in any case. Setting MOCKEY_DEBUG=true adds only lines starting with [MOCKEY] to the standard output: mocks behave the same.",
 ["configurations"],"every combination of compiler flags and values of the two environment variables",
 "Tests are always compiled with one set of flags and one environment.",
 ["internal/tool/check_gcflags.go","internal/tool/check_gcflags_amd64.go","internal/tool/debug.go"],[("detecting a call in a probe function","internal/tool/check_gcflags_amd64.go IsGCFlagsSet"),("environment switches","internal/tool/check_gcflags.go, debug.go")],["standard error and output, exit status"])
p("C19","Mocks behave the same in every build configuration",
 "Whatever else a program is built with besides -gcflags=all='-l -N' – a supported toolchain (1.23 and 1.24 here), further compiler flags (bounds checks off, Spectre mitigations, no DWARF), linker flags (stripped, external or static linking, another text address), -buildmode=pie, -race, -cover, -trimpath, the tag mockey_stw, GOAMD64, GOEXPERIMENT – and however the runtime is set (GOMAXPROCS, GOGC), functions, methods, generic functions and variables are mocked, passed through, called through the origin function, and released just as in the plain build, and GetMethod and GenericInfo answer the same.",
 ["configurations","histories"],"every combination of these settings, with every history of mocks the other properties quantify over",
 "Tests are compiled with one set of flags on one toolchain; no test runs in a position-independent, instrumented, or externally linked executable.",
 ["internal/monkey/inst/disasm_amd64.go","internal/monkey/inst/generic_extra.go","internal/monkey/common/runtime_link","internal/unsafereflect/type.go","internal/tool/goroutine_amd64.s","mock_generics.go"],[("finding the shared body behind an instrumented wrapper","internal/monkey/inst GetGenericJumpAddr"),("functions linked by name from the runtime","internal/monkey/common/runtime_link"),("type metadata offsets","internal/unsafereflect"),("displaced entries differ per configuration","internal/monkey/inst Disassemble")],["results, arguments, counters, variables, refusals and text segment in each configuration"])
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
open('/verif/properties.jsonl','w').write("".join(json.dumps(q,ensure_ascii=False)+"\n" for q in P))

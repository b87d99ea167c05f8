#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the text is easy to review and diff).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Primitive arithmetic, comparison and conversion have one exact meaning",
"Every expression over bool, char, short, int, long, float and double values has the value the language defines: two's-complement wrap-around, C-like promotion to the wider operand type, truncating division and modulo, shifts and bit operations, comparisons that honour the operand type, and value-preserving or truncating conversions wherever a value is cast or stored in a variable, member, element or parameter of another type. The value is the same whether the operands are literals folded by the compiler, globals, locals, array elements, members or arguments, and the same on every execution engine and optimization level.",
["inputs","programs","configurations"],"all operand values and types, all operand placements, all engines and optimization levels",
"the operand space is 2^128 per operator; tests pick a few values per operator and mostly in one operand placement, so a wrong fold, a wrong register form or an immediate form of one instruction goes unseen",
["NULLC/ExpressionEval.cpp","NULLC/ExpressionTree.cpp","NULLC/InstructionTreeVm.cpp","NULLC/InstructionTreeRegVmLower.cpp","NULLC/Executor_RegVm.cpp","NULLC/CodeGenRegVm_X86.cpp","NULLC/InstructionTreeVmCommon.cpp"],
[("constant folding","NULLC/ExpressionTree.cpp"),("instruction selection and immediate forms","NULLC/InstructionTreeRegVmLower.cpp"),("interpreter","NULLC/Executor_RegVm.cpp"),("JIT","NULLC/CodeGenRegVm_X86.cpp")],
observe=["values passed to bound host functions","nullcGetResult"])

p("C02","Control flow and evaluation order follow the source",
"A program performs exactly the side effects its source prescribes, in source order: each branch, loop, nested break or continue, switch, conditional, short-circuit operator, early return, recursive and mutually recursive call, and default argument runs the statements and subexpressions the language says, as many times as it says and left to right. Operands with side effects are evaluated exactly once.",
["programs","inputs","configurations"],"all programs built from the statement and expression forms, on all engines and optimization levels",
"control-flow graphs are unbounded and the optimizer (block merging, dead code, load/store propagation, phi elimination, register allocation) rewrites each differently; tests hold a fixed list of small snippets",
["NULLC/InstructionTreeVm.cpp","NULLC/InstructionTreeVmCommon.cpp","NULLC/InstructionTreeRegVmLower.cpp","NULLC/InstructionTreeRegVmLowerGraph.cpp","NULLC/ExpressionTree.cpp","NULLC/Executor_RegVm.cpp","NULLC/CodeGenRegVm_X86.cpp"],
[("expression to SSA lowering","NULLC/InstructionTreeVm.cpp"),("optimization passes","NULLC/InstructionTreeVm.cpp"),("register allocation","NULLC/InstructionTreeRegVmLower.cpp")],
observe=["order and arguments of calls into bound host functions"])

p("C03","Values, references and aggregates: copy and aliasing semantics",
"Assigning, passing, returning or storing a class, fixed array or primitive copies it, so later changes of either side never show in the other, while references, unsized arrays and objects reached through them alias: a write through any path is seen through every other path. New variables, objects and array elements start zero-initialised and then run their constructors and member initialisers; reading any element, member or dereference yields the last value written to that location.",
["programs","inputs","configurations"],"all programs that mix classes, nested members, fixed and unsized arrays, references and pointers into each, on all engines and optimization levels",
"aliasing interacts with every memory optimization (load/store forwarding, dead store removal, aggregate copy elision); tests cover a few aliasing shapes",
["NULLC/InstructionTreeVm.cpp","NULLC/ExpressionTree.cpp","NULLC/InstructionTreeRegVmLower.cpp","NULLC/Executor_RegVm.cpp","NULLC/CodeGenRegVm_X86.cpp","NULLC/StdLib.cpp"],
[("load/store propagation and dead store elimination","NULLC/InstructionTreeVm.cpp"),("aggregate loads and stores","NULLC/InstructionTreeRegVmLower.cpp"),("default construction","NULLC/ExpressionTree.cpp")],
observe=["values passed to bound host functions"])

p("C04","Closures share captured variables and outlive their scopes",
"A local function or lambda observes and updates the very variables it captured, together with the enclosing function and every other closure over them, for as long as the scope that declared them is active. When that scope ends (block, loop iteration, return, break or continue), each function object keeps its own private copy of the last value, which its later calls update and nothing else can change. Each activation of a scope, including each loop iteration and each recursive call, gives captured variables a fresh identity, so closures from different activations never interfere.",
["programs","histories","configurations"],"all nestings, capture patterns and call histories of closures",
"upvalue capture and closing is stateful per activation; tests exercise single closures, not interleaved histories of several closures over overlapping scopes, loops and recursion",
["NULLC/ExpressionTree.cpp","NULLC/InstructionTreeVm.cpp","NULLC/StdLib.cpp","NULLC/Executor_Common.cpp"],
[("context creation and upvalue closing","NULLC/ExpressionTree.cpp"),("upvalue lists","NULLC/InstructionTreeVm.cpp")],
observe=["values passed to bound host functions"])

p("C05","Coroutines resume exactly where they yielded",
"Calling a coroutine continues it right after its last yield with all its locals, loop positions and captured variables intact, and after a return or the end of its body the next call starts it anew; distinct coroutine instances never share state. Generators used in for-each and list comprehensions deliver exactly the yielded values, in order, and stop at the return.",
["programs","histories","configurations"],"all coroutine bodies and all interleavings of calls on several instances",
"state saved across a yield depends on control-flow position and on the instance; tests resume one coroutine linearly",
["NULLC/ExpressionTree.cpp","NULLC/InstructionTreeVm.cpp","NULLC/StdLib.cpp"],
[("yield lowering and jump table","NULLC/InstructionTreeVm.cpp"),("coroutine state closure","NULLC/ExpressionTree.cpp")],
observe=["values passed to bound host functions","isCoroutineReset"])

p("C06","Calls select the function the overload rules prescribe",
"Among the visible functions of a name, a call binds to the unique candidate whose parameters need the cheapest conversions from the given arguments, taking default, named, variadic, member and generic functions into account, with generic instances specialised on the actual argument types. When no candidate is applicable or several are equally cheap, the program is rejected with an error and nothing runs.",
["programs","configurations"],"all sets of overloads and all argument type vectors",
"the rating rules form a large decision table of pairs of types; tests check selected rows",
["NULLC/ExpressionTree.cpp","NULLC/TypeTree.cpp"],
[("function rating and selection","NULLC/ExpressionTree.cpp"),("generic instantiation","NULLC/ExpressionTree.cpp")],
observe=["which function body ran","compile result"])

p("C07","Dynamically typed values keep their type and virtual calls dispatch on it",
"A value placed in an auto ref or auto[] always reports the type it was created with and can be read back only as that type, a derived class or (for extendable classes) a base; any other conversion raises an error and has no effect. A method called through auto ref or through a base class reference runs the most derived implementation for the object's actual type.",
["programs","inputs","configurations"],"all class hierarchies, all pairs of stored and requested types and all dispatch paths",
"hierarchies and type pairs multiply; the tables of virtual functions are shared over the whole program, and tests use one hierarchy per snippet",
["NULLC/ExpressionTree.cpp","NULLC/StdLib.cpp","NULLC/Linker.cpp","NULLC/Executor_RegVm.cpp"],
[("virtual tables and redirection","NULLC/StdLib.cpp"),("ConvertPtr / checked casts","NULLC/Executor_RegVm.cpp")],
observe=["values passed to bound host functions","runtime error text"])

p("C08","Runtime faults stop the script with an error and leave the host usable",
"An out-of-range index, null dereference, integer division by zero, failed dynamic cast, null function call, unbounded recursion, function end without return, failed allocation or explicit error ends the run at exactly that point: all effects before it have happened, none after it, and the host gets a failure and a message of the matching kind. Afterwards the same process can run the same or other programs with unaffected results.",
["programs","fault_sequences","configurations"],"all fault kinds at all program points and call depths, and all sequences of faulting and normal runs",
"tests trigger each fault once at top level and then reset everything",
["NULLC/Executor_RegVm.cpp","NULLC/Executor_X86.cpp","NULLC/CodeGenRegVm_X86.cpp","NULLC/InstructionTreeRegVmLower.cpp","NULLC/nullc.cpp","NULLC/StdLib.cpp"],
[("execution error state and Stop","NULLC/Executor_RegVm.cpp"),("JIT error unwinding","NULLC/Executor_X86.cpp")],
observe=["nullcRun result","nullcGetLastError","events before the fault"])

p("C09","Garbage collection never changes what a program computes",
"An object, array, closure, coroutine or string that the program can still reach by any path (globals, locals, temporaries in flight, captured variables, members, elements, dynamically typed values, interior references) is never reclaimed or altered by a collection. A program computes the same results whatever the number and the moments of collections.",
["programs","schedules","configurations"],"all object graphs, all root kinds, and all choices of the moments at which a collection runs",
"a missing root only shows when a collection falls in a narrow window while that root is the only path; the tests collect at a few fixed places",
["NULLC/StdLib.cpp","NULLC/Executor_Common.cpp","NULLC/Executor_RegVm.cpp","NULLC/Executor_X86.cpp"],
[("mark roots and objects","NULLC/Executor_Common.cpp"),("sweep","NULLC/StdLib.cpp")],
state=[("object heap","blocks with type and mark flags","NULLC/StdLib.cpp")],
observe=["values passed to bound host functions under forced collection"])

p("C10","Unreachable memory is reclaimed and finalizers run exactly once",
"An object that becomes unreachable, alone or in a cycle, is reclaimed by a following collection so that a program with bounded live data runs in bounded memory; when its class defines a finalizer it runs exactly once, before the memory is released, on an object whose members are still intact, never on a reachable object. When live data exceeds the configured memory limit the allocation fails with an error and the process continues.",
["programs","histories","schedules"],"all object graphs and mutation, allocation and collection histories",
"leaks and double or missed finalization depend on graph shape and on the history of collections; tests only check a few shapes",
["NULLC/StdLib.cpp","NULLC/Executor_Common.cpp","NULLC/includes/gc.cpp"],
[("pending and finalized flags","NULLC/StdLib.cpp"),("memory limit","NULLC/StdLib.cpp")],
observe=["finalizer events","GC.UsedMemory","nullcRun result"])

p("C11","Errors thrown in a script reach exactly the nearest enclosing handler",
"A value thrown, or a runtime fault raised, inside a protected call is delivered to the innermost enclosing try at any call depth, with the thrown object or the message intact and all effects up to the throw visible; without error the protected call yields its function's result. After a handled error execution continues normally, any number of times, and an unhandled one ends the run with that error.",
["programs","fault_sequences","configurations"],"all nestings of try, throw, rethrow, faults, host callbacks and coroutines",
"unwinding state is restored per nested level; tests use one or two levels",
["NULLC/includes/error.cpp","Modules/std/error.nc","NULLC/nullc.cpp","NULLC/Executor_RegVm.cpp","NULLC/Executor_X86.cpp"],
[("try / throw native functions","NULLC/includes/error.cpp"),("nested run and error state","NULLC/Executor_RegVm.cpp")],
observe=["values passed to bound host functions","nullcGetLastError"])

p("C12","Modules behave the same however they are supplied and combined",
"A program that imports modules gets the same meaning whether each module was supplied as source text, as precompiled binary, or found through an import path, and however many paths of the import graph lead to it: every module's global code runs once, dependencies first, with one shared copy of its globals, types, functions and generic definitions. A missing, cyclic or erroneous module makes compilation fail with an error and leaves no trace.",
["programs","histories","configurations"],"all import graphs and all ways and orders of supplying modules",
"the number of import graphs times supply modes is large; tests use chains and a few diamonds, supplied in one way",
["NULLC/BinaryCache.cpp","NULLC/Compiler.cpp","NULLC/Linker.cpp","NULLC/Bytecode.cpp","NULLC/ExpressionTree.cpp","NULLC/nullc.cpp"],
[("module import","NULLC/ExpressionTree.cpp"),("bytecode serialisation","NULLC/Compiler.cpp"),("linking with remapping","NULLC/Linker.cpp")],
observe=["events of module code","nullcEnumerateModules","compile results"])

p("C13","Host API histories: each call acts on the current state and failures are atomic",
"After any sequence of compile, link, clean, run, call, module load and removal, global get and set, and function lookup, each call returns what the sequence prescribes: results and globals come from the last successful link and run, modules from the last successful load. A failing call reports the failure and a message and leaves everything later calls can observe as it was, except that the compilation result is always that of the last attempt and that what a run or a call did before its fault has happened.",
["histories","fault_sequences","configurations"],"all sequences of API calls, including failing ones at any place",
"tests call the API in one canonical order with few failing calls",
["NULLC/nullc.cpp","NULLC/Compiler.cpp","NULLC/Linker.cpp","NULLC/BinaryCache.cpp","NULLC/Executor_RegVm.cpp","NULLC/Executor_X86.cpp"],
[("API state and error buffers","NULLC/nullc.cpp"),("module cache","NULLC/BinaryCache.cpp")],
observe=["return values and results of every API call"])

p("C14","Values cross the host boundary unchanged in both directions",
"A host function bound to a script declaration receives exactly the argument values of the call, and the script receives exactly the value it returns, for every parameter list and result type; a script function called by the host behaves likewise, also when host and script calls nest. An error raised by a host function ends the script call there and reaches the host caller unless the script handles it.",
["programs","inputs","configurations"],"all signatures (numbers and mixes of integer, floating-point, reference, array and small or large class values), all values, all nestings, both binding methods, all engines",
"calling-convention classification depends on the whole parameter list; tests cover some signatures",
["NULLC/Executor_Common.cpp","NULLC/Executor_RegVm.cpp","NULLC/Executor_X86.cpp","NULLC/nullc.cpp","NULLC/nullbind.h","NULLC/Linker.cpp"],
[("external call marshalling","NULLC/Executor_Common.cpp"),("entry from host","NULLC/nullc.cpp")],
observe=["arguments seen by host functions","values returned to either side"])

p("C15","The debugger stops where asked and never changes the program",
"With breakpoints set, execution stops exactly when control reaches a marked instruction, every time for a permanent breakpoint and once for a one-time breakpoint, and never at a removed one; each stop's continue, step, step-into, step-out or stop response takes effect as named. Apart from a requested stop, the program computes the same results as without a debugger.",
["programs","histories","configurations"],"all sets and histories of breakpoints and all sequences of responses",
"tests set a breakpoint or two and count hits",
["NULLC/nullc_debug.h","NULLC/nullc.cpp","NULLC/Executor_RegVm.cpp","NULLC/Executor_X86.cpp"],
[("breakpoint patching","NULLC/Executor_RegVm.cpp"),("break handling","NULLC/Executor_X86.cpp")],
observe=["break callback calls","program events"])

p("C16","Standard containers behave as their abstract data types",
"The standard vector, list, hash map and event containers, ranges and runtime array helpers behave after any sequence of operations as the sequence, list, map or handler set they stand for: sizes, contents, order, iteration and lookups match, and invalid operations raise an error without effect. Elements never get lost, duplicated or altered by growth, rehashing or removal.",
["histories","inputs"],"all sequences of operations and all element values",
"representation invariants (links, buckets, capacity) break only in particular operation sequences; tests run short fixed ones",
["Modules/std/vector.nc","Modules/std/list.nc","Modules/std/hashmap.nc","Modules/std/event.nc","Modules/std/range.nc","Modules/std/algorithm.nc","NULLC/includes/vector.cpp","NULLC/StdLib.cpp"],
[("container modules","Modules/std"),("typeless array natives","NULLC/StdLib.cpp")],
observe=["results of container operations"])

p("C17","Strings and text conversion are exact",
"String literals, concatenation, comparison, slicing and searching, and conversions between numbers or booleans and text in every base and precision offered, give the exact text or value defined for them, for all operands including empty, extreme and negative ones. Sorting returns an ordered permutation of its input.",
["inputs"],"all strings and numbers, all supported bases and precisions",
"input spaces are infinite; tests check typical values",
["NULLC/StdLib.cpp","NULLC/includes/string.cpp","Modules/std/string.nc","Modules/std/algorithm.nc","NULLC/ParseTree.cpp"],
[("string natives","NULLC/StdLib.cpp"),("string module","NULLC/includes/string.cpp")],
observe=["values passed to bound host functions"])

p("C18","Names resolve to the innermost visible declaration",
"Every use of a name refers to the declaration the scope rules prescribe: the innermost enclosing block, function, class or namespace in which it is declared before the use, then imported modules, with shadowed names unaffected inside and restored outside. A use with no visible declaration, or a conflicting redeclaration, is rejected at compile time.",
["programs"],"all nestings of blocks, functions, classes, namespaces and imports with arbitrary reuse of names",
"scope tables are updated on entering and leaving each scope; tests use small nestings with distinct names",
["NULLC/ExpressionTree.cpp","NULLC/ExpressionTree.h","NULLC/TypeTree.h"],
[("scope lookup and push/pop","NULLC/ExpressionTree.cpp")],
observe=["which variable, function or type a use denotes","compile result"])

p("C19","Replacing functions and extending a running program takes effect everywhere",
"After a function is overridden or redirected, every later call by name or through existing function values runs the replacement, with arguments and results intact, and nothing else changes; overriding with an incompatible function is refused without effect. Code evaluated at run time or linked incrementally sees the current globals and functions and its effects are seen by the code already running.",
["histories","programs","configurations"],"all sequences of overrides, redirections, evaluations and calls",
"tests override one function once",
["NULLC/includes/dynamic.cpp","NULLC/nullc.cpp","NULLC/Linker.cpp","NULLC/Executor_RegVm.cpp","NULLC/Executor_X86.cpp"],
[("function redirection","NULLC/nullc.cpp"),("code relocation on incremental link","NULLC/Linker.cpp")],
observe=["which function body ran","values of globals"])

p("C20","Engine and optimization level are unobservable",
"A program that compiles gives the same sequence of effects, the same result and the same kind of error on the interpreter and on the JIT, at every optimization level, and whether its code stands at global scope, inside a function, inside a coroutine or inside a namespace. Repeating a run from a fresh link gives the same behaviour.",
["programs","configurations"],"all programs, engines, optimization levels and placements",
"tests fix the expected value of each snippet and cannot cover combinations of language features that make optimizer passes interact",
["NULLC/InstructionTreeVm.cpp","NULLC/InstructionTreeVmCommon.cpp","NULLC/InstructionTreeRegVmLower.cpp","NULLC/InstructionTreeRegVmLowerGraph.cpp","NULLC/Executor_RegVm.cpp","NULLC/Executor_X86.cpp","NULLC/CodeGenRegVm_X86.cpp"],
[("optimization passes","NULLC/InstructionTreeVm.cpp"),("register bytecode lowering","NULLC/InstructionTreeRegVmLower.cpp"),("x86-64 code generation","NULLC/CodeGenRegVm_X86.cpp")],
observe=["event traces per configuration"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')

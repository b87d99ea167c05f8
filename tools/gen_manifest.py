"""writes MANIFEST.json: every property of properties.jsonl that has a check is claimed"""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MACH='TLA+ abstract machine (spec/NullcMachine.tla), TLC trace validation of recorded runs'
T={}   # property: (technique, note)
T['C01']=(MACH,'Every operator, operand type pair, operand placement and conversion is run on all six executor/optimization configurations and the recorded effects are checked by TLC against the machine; random programs extend it. Values: exact 8..64-bit integers and the dyadic subset of float/double; other fractions are compared between configurations only. Trusts TLC, the harness and the parser of the generator.')
T['C02']=(MACH,'Random programs of every control form with traced operands; each recorded effect sequence is checked by TLC to be the behaviour of the specified machine. Bounded program size; faulting operations whose result is unused may be elided by optimized code.')
T['C20']=(MACH,'Random programs in every placement, run twice from fresh links on all six configurations; all recorded runs have to be behaviours of one specified machine and, where that leaves a value open, equal to each other.')
T['C03']=(MACH,'Random programs over classes, fixed and unsized arrays, references, parameters and returns; every number reachable is shown as an event and must be what the specified store holds. Bounded program size; layouts up to 4 members, 3 levels.')
T['C04']=(MACH,'Random programs with local functions and lambdas capturing locals, parameters and loop variables, called inside and after their scope; the machine models shared cells and the copy at scope end. Bounded program size.')
T['C05']=(MACH,'Directed coroutine and for-each programs (yields in nested blocks, loops, with captured and persistent locals, several instances, restart, missing return) plus random programs whose local functions are coroutines, on all configurations; the machine keeps one suspended state per coroutine instance. Bounded program size.')
T['C08']=(MACH,'Every fault kind of the language in every context (top level, function, recursion, closure, coroutine, loop, nested host call) on all configurations: prior effects, the failure and its kind, and the runs that follow on the same linked program have to be those of the machine.')
T['C11']=(MACH,'Every fault kind in every position inside protected calls: handled repeatedly, nested up to three deep with each handler keeping, rethrowing, raising another fault or returning; thrown objects (identity, aliasing, copies of stack objects), messages, result types, surviving state, long series of handled errors; all configurations. Variables captured by closures that outlive an unwound frame are a recorded finding.')
T['C07']=(MACH,'Every override pattern of small hierarchies with every dynamic class seen through every base and auto ref, every boxed type read as every type, and random histories of boxing, aliasing, conversion, auto[] indexing and virtual calls, also with the classes in an imported module; all configurations.')
OPS='TLA+ abstract data type specification checked by TLC; conformance by executing operation histories (exhaustive small and random long) in scripts on the real code and validating every recorded result against the specification with TLC'
T['C09']=(MACH+'; '+OPS,'spec/Heap.tla: histories of linking, moving, clearing and reading objects held through 24 kinds of storage, with the collector run by the program and forced at every allocation; every read has to give the specified value. Machine programs of the other properties (closures, coroutines, exceptions, dynamic values, faults) run with a forced collection at every allocation must still be behaviours of the machine. All configurations.')
T['C10']=(OPS,'spec/Heap.tla: after a collection exactly the unreachable finalizable objects have been finalized, once each, with intact members; objects revived by their finalizer; live memory after collections and at the memory limit compared with the specified reachable set. Conservative roots are avoided by clearing the stack before the collection. All configurations.')
T['C16']=(OPS,'spec/Containers.tla: vector, list (with node handles), hash map, event, range, arrays and auto[]: every history up to 3 (thorough 4) operations over small alphabets and long random ones over 8 element and 6 key types, on all configurations. Not covered: std.map (empty in this tree), aggregates of empty containers, detaching inside an event.')
T['C17']=(OPS,'spec/Text.tla: char[] operations of std.string and the core library, the string class, conversions between numbers and text (decimal texts and exact decimal expansions of doubles are decided by exact integer arithmetic in the specification), console output in every base and precision, sorting and searching: random histories on all configurations. Not covered: NaN texts, integer texts out of range, characters of 128 and above in comparisons.')
T['C13']=(OPS,'spec/Host.tla: compile, analyze, bytecode, link, clean, build, run, calls by name and through function values, function replacement, global get and set, module load from source and binary and removal, terminate and initialize, optimization level: sampled short histories over a fixed alphabet and random long ones with failing calls anywhere, on all configurations. Globals of units linked onto a program that has not run since are unspecified.')
T['C12']=(OPS,'spec/Modules.tla: random import graphs of up to 6 modules (in directories, through one or two import paths, as source, as saved binaries, reloaded after removal and reinitialization; missing, cyclic and erroneous ones) and programs using every kind of definition of any module reachable, on all configurations. A directory that repeats a module name of the root is not generated.')
T['C14']=(OPS,'spec/Native.tla: the C memory layout of values of every type; random sets of host functions (about 300 signatures over 64 classes, arrays, references, callbacks, dynamic values, both binding methods, nested host and script calls, errors raised by the host with and without a handler, host calls of script functions by both API calls): random histories of calls with random values on all configurations. x86-64 System V only; wrapped functions of more than 15 arguments are not covered.')
T['C06']=(OPS,'spec/Overload.tla: rating, generic matching, defaults, named and variadic arguments, member hiding, operators and function values; random overload sets of 1..6 functions (free, namespaced, imported, methods, inherited) each called with 24 random argument vectors, replayed against the specification')
T['C19']=(OPS,'spec/Replace.tla: histories of replacing functions by functions, by values and by text (also refused and erroneous ones, from script and from the host, inside a running function), eval, incremental linking, calls directly, through other functions, values, arguments and the host, reruns and rebuilds: random histories on all configurations.')
T['C18']=(OPS,'spec/Scope.tla: elaboration of program trees (blocks, functions, local functions, classes, namespaces, imported modules): the declaration every name refers to, captures, conflicts, rejected programs and the values the program then computes; random programs of 4..30 declarations and lookup chains, compiled and run','names of variables, members, functions, types and namespaces; generic functions only in chains; shapes in which the language promises nothing are allowed to do anything (Scope.tla "any")')
T['C15']=(OPS,'spec/Debug.tla: statement and line semantics of a program (Sem), refined by a run recorded with a breakpoint on every instruction; breakpoints (permanent, one-time, step marks with call depth), responses continue/step/step into/step out/stop, callbacks that add, remove and clear breakpoints, host entries and host callbacks, faults; random programs x random debugging sessions','interpreter (the JIT handles breakpoints on Windows only); stepping across host callbacks and throws not covered')
LATE='check under construction'
def main():
    props=[json.loads(l) for l in open(V+'/properties.jsonl')]
    checks=[];na=[]
    for p in props:
        i=p['id']
        if i in T and os.path.exists(V+'/checks/%s.py'%i):
            checks.append(dict(property=i,quick_cmd='python3 checks/%s.py'%i,thorough_cmd='VERIF_TIER=thorough python3 checks/%s.py'%i,evidence_file='evidence/%s.json'%i,technique=T[i][0],level='model_checking',level_note=T[i][1]))
        else: na.append(dict(property=i,reason=LATE))
    m=dict(version=1,setup_cmd='python3 tools/build.py',hooks=dict(guard='NULLC_VERIFICATION',enable='tools/build.py compiles /repo/NULLC with -DNULLC_VERIFICATION into .build/',source_commits=['8383756']),checks=checks,not_applicable=na)
    json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
main()

import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

LIB=["matslise/matslise.h","matslise/matslise/matslise.cpp","matslise/matslise/sector.cpp","matslise/matslise/halfrange.cpp","matslise/matslise/periodic.cpp","matslise/matslise/abstract_matslise.cpp","matslise/liouville.h","matslise/liouville/liouville.cpp","matslise/liouville/sturm_liouville.cpp","matslise/matscs.h","matslise/matscs/matscs.cpp","matslise/matscs/sector.cpp","matslise/util/sectorbuilder.cpp"]

p("C01","Concurrent use is race-free and returns the isolated results",
"Once a problem has been constructed, any number of threads may at the same time run its queries, evaluate eigenfunctions obtained from it and read its sectors, while other threads construct, query and destroy other problems, without data races, deadlock or memory errors. Under every interleaving each call returns, bit for bit, what the same call returns when it is the only call made in a fresh process.",
["schedules","programs"],
"All interleavings, at the granularity of single memory accesses, of 2-4 caller threads running generated programs over one or more shared or private problems of every kind (full range, half range, periodic, transformed Sturm-Liouville, coupled systems; double and long double).",
"Every existing test is single-threaded and runs one call at a time; none can observe an interleaving, and a shared cache, static scratch buffer or lazily built table would pass all of them.",
LIB,[("queries are const and work on locals; shared state is written only in constructors","matslise/matslise.h Matslise/MatsliseHalf/PeriodicMatslise; matslise/matscs.h; matslise/liouville.h"),("function-local statics only behind the language's initialisation guard","matslise/matslise/halfrange.cpp SQRT1_2; matslise/util/theta.h, legendre_data.h")],
[("sectors","precomputed per-interval data shared by all queries","matslise/matslise.h, matslise/matscs.h"),("pieces","piecewise transformation shared by all queries","matslise/liouville.h")],
["results of the public query operations","instrumented memory accesses"])

p("C02","Query results never depend on what was called before",
"The result of a query is determined, bit for bit, by how its object was constructed and by the query's own arguments: earlier, repeated, interleaved, rejected or failed calls on this or any other object, objects destroyed before and addresses reused since, and the previous contents of memory never change it. Evaluating an eigenfunction in many points at once gives, for each point, the value obtained in that point alone up to rounding, whatever the other points are and whatever their order (where an order is accepted).",
["histories","programs"],
"All sequences of constructions, queries, rejected queries, failed operations and destructions over several objects, with heap reuse policy and fill of fresh memory varied.",
"Tests run a handful of fixed call orders on freshly made objects; a memo keyed too weakly, state left over by a rejected call, or a read of uninitialised memory only shows for particular histories.",
LIB,[("no state is kept between calls","const members of the problem classes"),("eigenfunction objects hold their own propagated values","matslise/matslise/matslise.cpp MEigenfunction"),("batch evaluation re-locates the sector for every point","matslise/matslise/matslise.cpp, matslise/matslise/halfrange.cpp")],
None,["return values of the public operations"])

p("C03","A throwing callback reaches the caller unchanged and leaves nothing behind",
"When a user-supplied coefficient function or sector-division strategy throws while an object is being constructed, exactly that exception (same type, same content) reaches the caller, the callbacks are not invoked again by that construction, and everything the construction had acquired is released. Other objects are unaffected, and repeating the construction with callbacks that do not throw gives exactly the object it would have given without the failed attempt.",
["fault_sequences","histories"],
"Every evaluation of every callback as the throwing one, for several exception types including ones not derived from std::exception, for callback copies that throw, for each kind of object and builder, at any place in a history of other operations, and while other threads are running.",
"No existing test lets a callback throw at all.",
["matslise/util/sectorbuilder.cpp","matslise/matslise.h","matslise/matscs.h","matslise/liouville/liouville.cpp","matslise/matslise/halfrange.cpp","matslise/util/legendre.h"],
[("sectors are owned by smart pointers while being built","matslise/util/sectorbuilder.cpp"),("constructors unwind their members","matslise/matslise.h, matslise/matslise/halfrange.cpp, matslise/liouville.h")],
None,["exception caught by the caller","callback invocations","live heap blocks"])

p("C04","An allocation failure gives the exact result or bad_alloc, never damage",
"If an allocation fails during any operation, the operation either still returns its exact result or throws std::bad_alloc; it never terminates the process, corrupts memory or leaks, and it never returns a different result. Every other object and every later operation, including a repeat of the failed one, behaves exactly as if the failed call had not been made.",
["fault_sequences","histories"],
"Every allocation of every public operation (construction, query, eigenfunction creation, evaluation, copying, destruction) as the failing one, alone, repeatedly or above a size threshold, alone or while other threads run.",
"Allocation never fails in the test environment; no test injects it.",
LIB,[("owning containers and smart pointers on every allocation path","all modules"),("no noexcept function allocates","all modules")],None,
["outcome of the faulted call and of all later calls","live heap blocks"])

p("C05","Coefficient functions are only called in construction and inside the domain",
"The potential of a full-range, half-range, periodic, Sturm-Liouville or coupled problem is called only while that problem is being constructed, by the constructing thread, and only in points of the problem's interval (for a half-range problem only in the non-negative half). After construction the problem no longer depends on it: destroying or changing whatever the function refers to changes no later result.",
["programs","histories","schedules"],
"All programs of queries, eigenfunction evaluations, copies and destructions after a construction, with the function's environment destroyed, changed or made to throw as soon as the construction returns; all interleavings with other threads.",
"Tests use total, stateless lambdas, so an evaluation too many, too late, out of range or on another thread cannot be noticed.",
["matslise/matslise.h","matslise/matslise/sector.cpp","matslise/matslise/halfrange.cpp","matslise/matscs/sector.cpp","matslise/liouville.h","matslise/liouville/liouville.cpp","matslise/pyslise/pyslise.cpp"],
[("the potential is projected on Legendre polynomials per sector in the constructor and never used again","matslise/matslise/sector.cpp Sector::Sector"),("half-range problems are built on [0, xmax]","matslise/matslise/halfrange.cpp")],None,["callback invocations with thread, object and argument"])

p("C06","Non-finite values from a coefficient function never hang or corrupt",
"Whatever finite or non-finite values a coefficient function returns, once or persistently, construction and every later query on the object finish within a bounded amount of work and memory: they return (possibly meaningless numbers) or throw an ordinary exception. They never loop forever, exhaust memory, access memory out of bounds or disturb other objects.",
["fault_sequences","histories"],
"NaN, positive or negative infinity or a huge value returned at any single evaluation or from any evaluation on, for every object kind and builder, followed by any sequence of queries on that object and on others.",
"Tests only use well-behaved coefficient functions; the search loops of the solvers have exit conditions that silently rely on comparisons with finite numbers.",
["matslise/matslise/matslise.cpp","matslise/matslise/periodic.cpp","matslise/util/sectorbuilder.cpp","matslise/liouville/liouville.cpp","matslise/matslise/sector.cpp","matslise/util/find_sector.h"],
[("search loops stop when the interval can no longer be used","matslise/matslise/matslise.cpp eigenvaluesByIndex, computeEigenvaluesHelper; matslise/matslise/periodic.cpp"),("sector refinement bounded in steps and width","matslise/util/sectorbuilder.cpp"),("subdivision bounded","matslise/liouville/liouville.cpp constructPiecewise")],None,["steps executed per operation","live heap"])

p("C07","Coefficient functions may themselves use the library",
"A coefficient function or sector-division strategy may, while it is being called, construct, query and destroy other problems of any kind, query finished problems, and throw afterwards. The nested calls and the construction they interrupt each return exactly what they return on their own.",
["programs","schedules"],
"Any program of library operations nested, up to two levels deep, at any evaluation of any callback, also while other threads do the same.",
"No test nests a library call in a callback; a static scratch buffer, a global 'current problem' or a held lock is invisible without it.",
["matslise/matslise/sector.cpp","matslise/util/sectorbuilder.cpp","matslise/util/legendre.h","matslise/liouville/liouville.cpp","matslise/matscs/sector.cpp"],
[("construction keeps its working data on its own stack","matslise/util/legendre.h, matslise/matslise/matslise_formulas.cpp, matslise/util/sectorbuilder.cpp")],None,["results of outer and nested operations"])

p("C08","The library leaves process-wide state and standard output alone",
"No operation, whether it succeeds, throws or fails for lack of memory, writes to standard output or changes process-wide state visible to the caller: floating-point environment, locale, stream formatting and buffers, handlers, random state, signal dispositions or environment. Results do not depend on the state of the standard streams or on the global locale.",
["histories","fault_sequences","configurations"],
"All sequences of operations including failing ones, under failing, full or reformatted standard streams, other global locales, and different incoming stream formatting.",
"Tests neither capture output nor compare process state before and after a call, and never run with a failing stream or another locale.",
["matslise/matslise/periodic.cpp","matslise/matslise/matslise.cpp","matslise/matslise/halfrange.cpp","matslise/util/scoped_timer.h"],
[("diagnostics only on standard error","matslise/matslise/matslise.cpp propagationSteps"),("no global settings are touched","all modules")],None,["bytes on standard output","snapshot of process state before and after each operation"])

p("C09","The profiling build changes no result and counts every timed scope",
"A build with profiling enabled returns the same results, throws the same exceptions and is as thread-safe as the normal build, and its report lists each timed scope exactly as often as it was entered, also for scopes left by an exception, entered from several threads at once or nested through callbacks. No behaviour of the wall clock (jumps, going backwards) makes a reported duration negative or disturbs anything else.",
["schedules","fault_sequences","configurations"],
"All interleavings of threads running timed operations, clock jumps at any reading, exceptions and allocation failures inside timed scopes.",
"The test-suite is never built with profiling; the profiler keeps a process-wide stack and table.",
["matslise/util/scoped_timer.h","matslise/matslise/matslise.cpp","matslise/matslise/sector.cpp"],
[("scope objects push and pop a process-wide call stack and add to a process-wide table","matslise/util/scoped_timer.h Profiler, ScopedTimer")],
[("Profiler::stack, Profiler::executionTimes","names of the open scopes; accumulated counts and times","matslise/util/scoped_timer.h")],["results","profiling report"])

p("C10","Objects own what they keep: arguments may die and memory is returned",
"Arguments of any constructor or query (functions, boundary values, builders, intervals, points) may be destroyed or overwritten as soon as the call returns, returned values stay valid on their own, copies and their originals are independent, and a problem, its sectors and its eigenfunctions may be destroyed in any order in which an eigenfunction is not evaluated after its problem. Destroying them releases all memory, exactly once, and no number of construct-query-destroy rounds accumulates memory.",
["histories","programs"],
"All orders of destroying and reusing arguments, builders, problems, copies, sibling problems and eigenfunctions, with immediate and delayed address reuse and poisoned freed memory.",
"Tests keep every argument alive to the end of the scope and look at no memory; dangling reads usually still see the old bytes.",
["matslise/matslise.h","matslise/liouville.h","matslise/liouville/sturm_liouville.cpp","matslise/matslise/matslise.cpp","matslise/matslise/halfrange.cpp","matslise/util/sectorbuilder.h","matslise/matscs.h"],
[("arguments are stored by value","matslise/matslise.h, matslise/liouville.h, matslise/matscs.h"),("the transformed potential is bound to a copy of the transformation","matslise/liouville.h SturmLiouville")],None,["instrumented memory accesses against block liveness","live heap after the last destruction"])

p("C11","Python objects stay valid however the interpreter collects their parents",
"Every object handed to Python (eigenfunctions, eigenpairs, sectors, transformed problems) stays usable and returns the same values for as long as Python holds it, whatever other Python objects, including the problem it came from and the functions passed in, have been collected before. Collecting everything destroys every native object exactly once, and a failing constructor leaks nothing.",
["histories","schedules","fault_sequences"],
"All orders in which a garbage collector may release the Python-side references of generated binding scripts, with callbacks and allocations failing at any point.",
"The binding cannot even be built here, and its doctests keep the parent objects alive in local variables.",
["matslise/pyslise/pyslise.cpp","matslise/pyslise/pyscs.cpp","matslise/pyslise/sturm_liouville.cpp","matslise/pyslise/module.h"],
[("eigenfunctions are wrapped together with a shared reference to their problem","matslise/pyslise/module.h EigenfunctionWrapper"),("return value policies on sector accessors","matslise/pyslise/pyslise.cpp, matslise/pyslise/pyscs.cpp __sector")],None,["accesses through Python handles against native object liveness"])

p("C12","A thread stalled in its callback never blocks the others",
"While one thread is stuck for arbitrarily long inside a user-supplied callback of a construction, every other thread can construct, query and destroy other problems, and query finished ones, to completion. When the stalled callback returns, its construction completes with its exact result.",
["schedules"],
"A stall of unbounded length at any callback evaluation of any construction, with any programs on the other threads and any interleaving.",
"Needs several threads and a callback that does not return; nothing in the test-suite can express it, and a global lock around construction would pass every test.",
["matslise/matslise.h","matslise/util/sectorbuilder.cpp","matslise/liouville/liouville.cpp","matslise/matscs.h"],
[("no library-wide lock, queue or one-time initialisation is held while user code runs","all modules")],None,["progress of every non-stalled thread"])

def na(id,title,st,text,why,files,mech):
    p(id,title,st,["inputs"],text,why,files,mech)
na("N01","Computed eigenvalues and their error estimates are accurate",
"Every eigenvalue returned for a regular problem lies within the requested tolerance (times a modest factor) of an eigenvalue of the continuous problem, and the reported error bounds the true error.",
"All potentials, domains, boundary conditions and tolerances.","Tests compare a few textbook potentials with tabulated values.",
["matslise/matslise/matslise.cpp","matslise/matslise/sector.cpp","matslise/matslise/matslise_formulas.cpp"],[("constant perturbation method per sector, Newton iteration on the matching error","matslise/matslise/matslise.cpp")])
na("N02","Index queries return all and only the requested eigenvalues",
"Asking for the eigenvalues with index i up to j, or in an energy interval, returns each of them exactly once, in increasing order, with its right index.",
"All problems and all index or energy ranges.","Tests fix a few ranges per potential.",
["matslise/matslise/matslise.cpp","matslise/matslise/halfrange.cpp","matslise/matslise/periodic.cpp"],[("bisection on the Prufer angle","matslise/matslise/matslise.cpp computeEigenvaluesHelper")])
na("N03","Eigenfunctions satisfy the equation, are normalised and orthogonal",
"Each eigenfunction returned satisfies the differential equation and boundary conditions, has unit norm, and is orthogonal to the others.",
"All problems and indices.","Tests check a few points of a few functions.",
["matslise/matslise/matslise.cpp","matslise/matslise/halfrange.cpp","matslise/liouville/sturm_liouville.cpp"],[("normalisation by energy derivatives","matslise/matslise/matslise.cpp propagationSteps")])
na("N04","Propagation is invertible, composable and matches its energy derivative",
"Propagating from a to b and back, or over intermediate points, gives the identity respectively the direct result up to rounding, and the propagated energy derivative equals the derivative of the propagated value.",
"All problems, energies and points.","Tests sample a few points.",
["matslise/matslise/sector.cpp","matslise/matscs/sector.cpp","matslise/matslise/matslise_formulas.cpp","matslise/matscs/matscs_formulas.cpp"],[("propagation matrices of determinant one","matslise/matslise/sector.cpp calculateT")])
na("N05","Specialised solvers agree with the general one",
"A half-range problem gives the spectrum and eigenfunctions of the full symmetric problem, a Sturm-Liouville problem those of its Liouville-transformed problem, and a diagonal coupled system the union of its scalar problems.",
"All symmetric potentials, coefficient triples and diagonal systems.","Tests compare a few potentials.",
["matslise/matslise/halfrange.cpp","matslise/liouville/liouville.cpp","matslise/matscs/matscs.cpp"],[("even and odd half problems are merged","matslise/matslise/halfrange.cpp")])
na("N06","Periodic eigenvalues are complete with correct multiplicities",
"For every (quasi-)periodic boundary condition given by a matrix of determinant one the returned eigenvalues are complete, ordered and carry their true multiplicity, and the eigenfunctions satisfy the boundary condition.",
"All potentials and boundary matrices.","Tests use a few potentials and two matrices.",
["matslise/matslise/periodic.cpp"],[("interlacing of the two Prufer angles","matslise/matslise/periodic.cpp")])
na("N07","Sector division covers the domain, respects jumps and meets the tolerance",
"Sectors returned by the builders partition the interval without gap or overlap, no sector crosses a given discontinuity, and each meets the requested tolerance or the minimal width.",
"All domains, tolerances, discontinuity lists and sector counts.","Tests look at a few potentials.",
["matslise/util/sectorbuilder.cpp"],[("growing from both ends to the matching point","matslise/util/sectorbuilder.cpp")])
na("N08","All precisions compute the same mathematics",
"Double, long double and quadruple precision builds return results that agree to the precision of the coarser type.",
"All inputs.","Tests sample a few potentials per type.",
["matslise/util/instantiate.h","matslise/matslise/matslise_formulas.cpp"],[("one template for all scalar types","matslise/util/instantiate.h")])
with open('properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P))

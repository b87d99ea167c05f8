// Conformance harness: executes job files (sequences of host API commands) against nullc built from /repo.
// Every job runs in its own forked process; everything observable is appended to a log in shared memory, so that
// the part of a trace before a crash survives. The log is what the TLA+ specifications judge.
#include "NULLC/nullc.h"
#include "NULLC/nullbind.h"
#include "NULLC/nullc_debug.h"
#include "NULLC/nullc_internal.h"
#include "NULLC/includes/file.h"
#include "NULLC/includes/math.h"
#include "NULLC/includes/vector.h"
#include "NULLC/includes/random.h"
#include "NULLC/includes/dynamic.h"
#include "NULLC/includes/gc.h"
#include "NULLC/includes/memory.h"
#include "NULLC/includes/error.h"
#include "NULLC/includes/string.h"
#include "NULLC/includes/io.h"
#include "NULLC/includes/time.h"
#include "NULLC/includes/typeinfo.h"

#include <stdio.h>
#include <stdlib.h>
#include <map>
#include <stdarg.h>
#include <string.h>
#include <string>
#include <vector>

#include <set>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>

#include "host.h"

#ifdef NULLC_VERIFICATION
namespace NULLC { extern void VerificationSetGcStress(int mode); }
#endif

SharedLog *g_log = NULL;
static unsigned g_lines = 0, g_maxLines = 0;	// the trace ends with "cut" after this many lines

void LogF(const char *fmt, ...)
{
	if(!g_log)
		return;
	char tmp[16384];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(tmp, sizeof(tmp), fmt, ap);
	va_end(ap);
	if(n < 0)
		return;
	if(n >= (int)sizeof(tmp))
		n = sizeof(tmp) - 1;
	if(g_log->used + n + 8 >= sizeof(g_log->data))
	{
		g_log->overflow = 1;
		_exit(77);
	}
	memcpy(g_log->data + g_log->used, tmp, n);
	g_log->used += n;
	if(g_maxLines && ++g_lines >= g_maxLines)
	{
		memcpy(g_log->data + g_log->used, "cut\n", 4);
		g_log->used += 4;
		_exit(0);
	}
}
std::string Hex(const char *s, size_t n)
{
	static const char *d = "0123456789abcdef";
	std::string r;
	for(size_t i = 0; i < n; i++)
	{
		r += d[(unsigned char)s[i] >> 4];
		r += d[(unsigned char)s[i] & 15];
	}
	return r;
}

// ---------------------------------------------------------------- event functions visible to scripts (module "verif")
static void ev_b(bool v){ LogF("b %d\n", (int)v); }
static void ev_c(char v){ LogF("c %d\n", (int)v); }
static void ev_h(short v){ LogF("h %d\n", (int)v); }
static void ev_i(int v){ LogF("i %d\n", v); }
static void ev_l(long long v){ LogF("l %lld\n", v); }
static void ev_f(float v){ unsigned u; memcpy(&u, &v, 4); LogF("f %08x\n", u); }
static void ev_d(double v){ unsigned long long u; memcpy(&u, &v, 8); LogF("d %016llx\n", u); }
static void ev_s(NULLCArray s){ LogF("s %s\n", Hex(s.ptr, s.len).c_str()); }
static void ev_z(NULLCArray s){ LogF("z %s\n", Hex(s.ptr, s.len ? strnlen(s.ptr, s.len) : 0).c_str()); }
static void ev_m(NULLCArray s){ LogF("m %s\n", Hex(s.ptr, s.len ? strnlen(s.ptr, s.len) : 0).c_str()); }
// the console of std.io: what scripts print is collected until the next evio()
static std::string g_console, g_input;
static unsigned ConsoleWrite(void*, char *data, unsigned length){ g_console.append(data, length); return length; }
static unsigned ConsoleRead(void*, char *target, unsigned length){ unsigned n = length < g_input.size() ? length : (unsigned)g_input.size(); memcpy(target, g_input.data(), n); g_input.erase(0, n); return n; }
static void ev_io(){ LogF("s %s\n", Hex(g_console.data(), g_console.size()).c_str()); g_console.clear(); }
static void feed_io(NULLCArray s){ g_input.assign(s.ptr ? s.ptr : "", s.ptr ? strnlen(s.ptr, s.len) : 0); }
static int tr_i(int v){ LogF("i %d\n", v); return v; }
static long long tr_l(long long v){ LogF("l %lld\n", v); return v; }
static double tr_d(double v){ unsigned long long u; memcpy(&u, &v, 8); LogF("d %016llx\n", u); return v; }
static int id_i(int v){ return v; }
static long long id_l(long long v){ return v; }
static double id_d(double v){ return v; }
static float id_f(float v){ return v; }
static char id_c(char v){ return v; }
static short id_h(short v){ return v; }
static bool id_b(bool v){ return v; }

static std::vector<std::string> g_hostErrors;
static int h_call_v(NULLCFuncPtr f){ nullres r = nullcCallFunction(f); LogF("hc %d\n", (int)r); if(!r) LogF("he %s\n", Hex(nullcGetLastError(), strlen(nullcGetLastError())).c_str()); return r; }
static int h_call_i(NULLCFuncPtr f, int a){ nullres r = nullcCallFunction(f, a); int v = r ? nullcGetResultInt() : -1; LogF("hc %d %d\n", (int)r, v); return v; }
// calls and swallows the error, then lets the script go on
static int h_call_catch(NULLCFuncPtr f, int a)
{
	nullres r = nullcCallFunction(f, a);
	if(!r)
	{
		LogF("he %s\n", Hex(nullcGetLastError(), strlen(nullcGetLastError())).c_str());
		nullcClearError();
		return -1;
	}
	return nullcGetResultInt();
}
static void h_throw(NULLCArray s){ nullcThrowError("%.*s", (int)strnlen(s.ptr, s.len), s.ptr); }
static void h_throw_obj(NULLCRef r){ nullcThrowErrorObject(r); }
static int h_is_stack(NULLCRef r){ return nullcIsStackPointer(r.ptr); }
static int h_is_managed(NULLCRef r){ return nullcIsManagedPointer(r.ptr); }

static const char *verifSource =
"void evb(bool v); void evc(char v); void evh(short v); void evi(int v); void evl(long v); void evf(float v); void evd(double v); void evs(char[] v); void evz(char[] v); void evm(char[] v); void evio(); void feedio(char[] v);\r\n"
"int tri(int v); long trl(long v); double trd(double v);\r\n"
"int idi(int v); long idl(long v); double idd(double v); float idf(float v); char idc(char v); short idh(short v); bool idb(bool v);\r\n"
"int hcall(void ref() f); int hcalli(int ref(int) f, int a); int hcallc(int ref(int) f, int a); void hthrow(char[] s); void hthrowo(auto ref x);\r\n"
"int hisstack(auto ref x); int hismanaged(auto ref x);\r\n";

static void BindVerif()
{
	if(!nullcLoadModuleBySource("verif", verifSource))
	{
		fprintf(stderr, "verif module: %s\n", nullcGetLastError());
		exit(3);
	}
#define B(name, f) if(!nullcBindModuleFunctionHelper("verif", f, name, 0)) { fprintf(stderr, "bind %s failed\n", name); exit(3); }
	B("evb", ev_b) B("evc", ev_c) B("evh", ev_h) B("evi", ev_i) B("evl", ev_l) B("evf", ev_f) B("evd", ev_d) B("evs", ev_s) B("evz", ev_z) B("evm", ev_m) B("evio", ev_io) B("feedio", feed_io)
	B("tri", tr_i) B("trl", tr_l) B("trd", tr_d)
	B("idi", id_i) B("idl", id_l) B("idd", id_d) B("idf", id_f) B("idc", id_c) B("idh", id_h) B("idb", id_b)
	B("hcall", h_call_v) B("hcalli", h_call_i) B("hcallc", h_call_catch) B("hthrow", h_throw) B("hthrowo", h_throw_obj)
	B("hisstack", h_is_stack) B("hismanaged", h_is_managed)
}

// ---------------------------------------------------------------- debugger
struct DebugState
{
	std::vector<std::string> script;	// responses, consumed one per stop; last one repeats
	unsigned pos;
	int maxStops;
	bool logStops;
};
static DebugState g_dbg;

static unsigned LineOf(unsigned instruction, unsigned *moduleIndex)
{
	const char *loc = nullcDebugGetInstructionSourceLocation(instruction);
	if(!loc)
		return ~0u;
	unsigned m = nullcDebugGetSourceLocationModuleIndex(loc), col = 0;
	unsigned line = nullcDebugGetSourceLocationLineAndColumn(loc, m, col);
	if(moduleIndex)
		*moduleIndex = m;
	return line;
}
static std::vector<unsigned> InstructionsOfLine(unsigned line)
{
	// all instructions of the main module whose source location is on the line, first one first
	unsigned count = 0, mcount = 0;
	ExternSourceInfo *info = nullcDebugSourceInfo(&count);
	nullcDebugModuleInfo(&mcount);
	std::vector<unsigned> r;
	for(unsigned i = 0; i < count; i++)
	{
		unsigned m = 0;
		unsigned l = LineOf(info[i].instruction, &m);
		if(l == line && m == ~0u)
			r.push_back(info[i].instruction);
	}
	return r;
}
static unsigned BreakCallback(void *context, unsigned instruction)
{
	(void)context;
	unsigned m = 0;
	unsigned line = LineOf(instruction, &m);
	unsigned depth = 0;
	nullcDebugBeginCallStack();
	while(nullcDebugGetStackFrame())
		depth++;
	LogF("bp %u %d %u %u\n", line == ~0u ? 0 : line, m == ~0u ? -1 : (int)m, instruction, depth);
	if(--g_dbg.maxStops < 0)
		return NULLC_BREAK_STOP;
	std::string r = "go";
	if(!g_dbg.script.empty())
	{
		r = g_dbg.script[g_dbg.pos < g_dbg.script.size() ? g_dbg.pos : g_dbg.script.size() - 1];
		g_dbg.pos++;
	}
	// responses can also change breakpoints: "del:<line>;step"
	size_t sc;
	while((sc = r.find(';')) != std::string::npos)
	{
		std::string act = r.substr(0, sc);
		r = r.substr(sc + 1);
		unsigned l = 0;
		if(sscanf(act.c_str(), "del:%u", &l) == 1)
		{
			std::vector<unsigned> v = InstructionsOfLine(l);
			LogF("bpdel %u %d\n", l, v.empty() ? -1 : (int)nullcDebugRemoveBreakpoint(v[0]));
		}
		else if(sscanf(act.c_str(), "add:%u", &l) == 1)
		{
			std::vector<unsigned> v = InstructionsOfLine(l);
			LogF("bpadd %u %d\n", l, v.empty() ? -1 : (int)nullcDebugAddBreakpoint(v[0]));
		}
		else if(sscanf(act.c_str(), "one:%u", &l) == 1)
		{
			std::vector<unsigned> v = InstructionsOfLine(l);
			LogF("bpone %u %d\n", l, v.empty() ? -1 : (int)nullcDebugAddOneHitBreakpoint(v[0]));
		}
		else if(act == "clear")
		{
			LogF("bpclear %d\n", (int)nullcDebugClearBreakpoints());
		}
	}
	if(r == "step") return NULLC_BREAK_STEP;
	if(r == "into") return NULLC_BREAK_STEP_INTO;
	if(r == "out") return NULLC_BREAK_STEP_OUT;
	if(r == "stop") return NULLC_BREAK_STOP;
	return NULLC_BREAK_PROCEED;
}

// ---------------------------------------------------------------- commands
typedef std::vector<std::string> Args;
static int g_exec = 0, g_opt = 2;
static bool g_std = false;
static const char *g_importPath = NULL;
static std::vector<std::string> g_preload;
int SetUp();
static std::map<std::string, std::vector<char> > g_blobs;
static std::map<std::string, NULLCFuncPtr> g_funcs;

static std::string Err()
{
	const char *e = nullcGetLastError();
	return e ? Hex(e, strnlen(e, 4000)) : "";	// a call stack can be long
}
static void LogResult()
{
	unsigned t = nullcGetResultType();
	if(t == NULLC_TYPE_LONG)
		LogF("r l %lld\n", nullcGetResultLong());
	else if(t == NULLC_TYPE_INT || t == NULLC_TYPE_BOOL || t == NULLC_TYPE_CHAR || t == NULLC_TYPE_SHORT)
		LogF("r i %d\n", nullcGetResultInt());
	else if(t == NULLC_TYPE_DOUBLE || t == NULLC_TYPE_FLOAT)
	{
		double d = nullcGetResultDouble();
		unsigned long long u;
		memcpy(&u, &d, 8);
		LogF("r d %016llx\n", u);
	}
	else
		LogF("r %u\n", t);
}

static void Execute(const Args &a)
{
	const std::string &c = a[0];
	nullres r = 0;
	if(c == "build")
	{
		r = nullcBuild(a[1].c_str());
		LogF(r ? "build ok\n" : "build fail %s\n", Err().c_str());
	}
	else if(c == "buildrun")	// the usual case: nothing is logged for success of build
	{
		r = nullcBuild(a[1].c_str());
		if(!r)
		{
			LogF("build fail %s\n", Err().c_str());
			return;
		}
#ifdef NULLC_VERIFICATION
		if(a.size() > 2 && a[2] == "gc") NULLC::VerificationSetGcStress(1);
#endif
		r = nullcRun();
#ifdef NULLC_VERIFICATION
		if(a.size() > 2 && a[2] == "gc") NULLC::VerificationSetGcStress(0);
#endif
		if(r) LogResult();
		else LogF("run fail %s\n", Err().c_str());
	}
	else if(c == "compile")
	{
		r = nullcCompile(a[1].c_str());
		LogF(r ? "compile ok\n" : "compile fail %s\n", Err().c_str());
	}
	else if(c == "analyze")
	{
		r = nullcAnalyze(a[1].c_str());
		LogF(r ? "analyze ok\n" : "analyze fail %s\n", Err().c_str());
	}
	else if(c == "bytecode" || c == "bytecodenc")
	{
		char *b = NULL;
		unsigned n = c == "bytecode" ? nullcGetBytecode(&b) : nullcGetBytecodeNoCache(&b);
		if(n)
		{
			g_blobs[a[1]] = std::vector<char>(b, b + n);
			delete[] b;
		}
		LogF(n ? "bytecode ok\n" : "bytecode fail %s\n", Err().c_str());
	}
	else if(c == "link")
	{
		if(!g_blobs.count(a[1])) { LogF("link none\n"); return; }
		r = nullcLinkCode(&g_blobs[a[1]][0]);
		LogF(r ? "link ok\n" : "link fail %s\n", Err().c_str());
	}
	else if(c == "reinit")
	{
		nullcTerminate();
		g_funcs.clear();
		LogF(SetUp() ? "reinit fail\n" : "reinit ok\n");
		nullcClean();
	}
	else if(c == "clean")
	{
		nullcClean();
		LogF("clean\n");
	}
	else if(c == "run")
	{
		r = nullcRun();
		if(r) LogResult();
		else LogF("run fail %s\n", Err().c_str());
	}
	else if(c == "runfn")	// runfn name sig args...  sig: v, i, l, d per argument
	{
		const std::string &sig = a.size() > 2 ? a[2] : a[1];
		if(a.size() <= 2 || sig == "") r = nullcRunFunction(a[1].c_str());
		else if(sig == "i") r = nullcRunFunction(a[1].c_str(), atoi(a[3].c_str()));
		else if(sig == "ii") r = nullcRunFunction(a[1].c_str(), atoi(a[3].c_str()), atoi(a[4].c_str()));
		else if(sig == "l") r = nullcRunFunction(a[1].c_str(), atoll(a[3].c_str()));
		else if(sig == "d") r = nullcRunFunction(a[1].c_str(), atof(a[3].c_str()));
		else if(sig == "id") r = nullcRunFunction(a[1].c_str(), atoi(a[3].c_str()), atof(a[4].c_str()));
		else if(sig == "il") r = nullcRunFunction(a[1].c_str(), atoi(a[3].c_str()), atoll(a[4].c_str()));
		if(r) LogResult();
		else LogF("run fail %s\n", Err().c_str());
	}
	else if(c == "getfn")
	{
		NULLCFuncPtr f;
		r = nullcGetFunction(a[1].c_str(), &f);
		if(r) g_funcs[a[2]] = f;
		LogF(r ? "getfn ok\n" : "getfn fail\n");
	}
	else if(c == "callfn")
	{
		if(!g_funcs.count(a[1])) { LogF("callfn none\n"); return; }
		const std::string &sig = a.size() > 2 ? a[2] : std::string();
		NULLCFuncPtr f = g_funcs[a[1]];
		if(sig == "i") r = nullcCallFunction(f, atoi(a[3].c_str()));
		else if(sig == "ii") r = nullcCallFunction(f, atoi(a[3].c_str()), atoi(a[4].c_str()));
		else r = nullcCallFunction(f);
		if(r) LogResult();
		else LogF("run fail %s\n", Err().c_str());
	}
	else if(c == "setfn")
	{
		if(!g_funcs.count(a[2])) { LogF("setfn none\n"); return; }
		r = nullcSetFunction(a[1].c_str(), g_funcs[a[2]]);
		LogF(r ? "setfn ok\n" : "setfn fail %s\n", Err().c_str());
	}
	else if(c == "geti")
	{
		int *p = (int*)nullcGetGlobal(a[1].c_str());
		if(p) LogF("get %d\n", *p);
		else LogF("get none\n");
	}
	else if(c == "gettype")
	{
		LogF("gettype %d\n", (int)nullcGetGlobalType(a[1].c_str()));
	}
	else if(c == "seti")
	{
		int v = atoi(a[2].c_str());
		r = nullcSetGlobal(a[1].c_str(), &v);
		LogF("set %d\n", (int)r);
	}
	else if(c == "module")
	{
		r = nullcLoadModuleBySource(a[1].c_str(), a[2].c_str());
		LogF(r ? "module ok\n" : "module fail %s\n", Err().c_str());
	}
	else if(c == "modbin")	// load module a[1] from blob a[2]
	{
		if(!g_blobs.count(a[2])) { LogF("modbin none\n"); return; }
		// The cache takes the data as is; pass a heap copy
		std::vector<char> &b = g_blobs[a[2]];
		char *copy = new char[b.size()];
		memcpy(copy, &b[0], b.size());
		r = nullcLoadModuleByBinary(a[1].c_str(), copy);
		LogF(r ? "modbin ok\n" : "modbin fail %s\n", Err().c_str());
		delete[] copy;
	}
	else if(c == "removemodule")
	{
		nullcRemoveModule(a[1].c_str());
		LogF("removed\n");
	}
	else if(c == "modules")	// is module a[1] in the enumeration?
	{
		int found = 0;
		for(unsigned i = 0; const char *n = nullcEnumerateModules(i); i++)
			if(a[1] == n)
				found++;
		LogF("modules %d\n", found);
	}
	else if(c == "importpath")
	{
		nullcAddImportPath(a[1].c_str());
	}
	else if(c == "result")
	{
		LogResult();
	}
	else if(c == "lasterror")
	{
		LogF("lasterror %s\n", Err().c_str());
	}
	else if(c == "clearerror")
	{
		nullcClearError();
		LogF("clearerror\n");
	}
	else if(c == "finalize")
	{
		r = nullcFinalize();
		LogF("finalize %d\n", (int)r);
	}
	else if(c == "memlimit")
	{
		nullcSetGlobalMemoryLimit((unsigned)atoll(a[1].c_str()));
	}
	else if(c == "stacksize")
	{
		r = nullcSetExecutorStackSize((unsigned)atoll(a[1].c_str()));
		LogF("stacksize %d\n", (int)r);
	}
	else if(c == "optimize")
	{
		nullcSetOptimizationLevel(atoi(a[1].c_str()));
	}
	else if(c == "executor")
	{
		nullcSetExecutor(atoi(a[1].c_str()));
	}
	else if(c == "gcstress")
	{
#ifdef NULLC_VERIFICATION
		NULLC::VerificationSetGcStress(atoi(a[1].c_str()));
#endif
	}
	else if(c == "bpfn")	// bpfn maxStops response...
	{
		g_dbg.script.assign(a.begin() + 2, a.end());
		g_dbg.pos = 0;
		g_dbg.maxStops = atoi(a[1].c_str());
		r = nullcDebugSetBreakFunction(NULL, BreakCallback);
		LogF("bpfn %d\n", (int)r);
	}
	else if(c == "bpadd" || c == "bpone" || c == "bpdel")
	{
		std::vector<unsigned> v = InstructionsOfLine(atoi(a[1].c_str()));
		if(v.empty()) { LogF("%s none\n", c.c_str()); return; }
		r = c == "bpadd" ? nullcDebugAddBreakpoint(v[0]) : c == "bpone" ? nullcDebugAddOneHitBreakpoint(v[0]) : nullcDebugRemoveBreakpoint(v[0]);
		LogF("%s %s %d\n", c.c_str(), a[1].c_str(), (int)r);
	}
	else if(c == "bpaddraw" || c == "bponeraw" || c == "bpdelraw")
	{
		unsigned i = (unsigned)atoll(a[1].c_str());
		r = c == "bpaddraw" ? nullcDebugAddBreakpoint(i) : c == "bponeraw" ? nullcDebugAddOneHitBreakpoint(i) : nullcDebugRemoveBreakpoint(i);
		LogF("%s %d\n", c.c_str(), (int)r);
	}
	else if(c == "bpclear")
	{
		LogF("bpclear %d\n", (int)nullcDebugClearBreakpoints());
	}
	else if(c == "bpall")	// a breakpoint at every instruction
	{
		unsigned i = 0;
		while(nullcDebugAddBreakpoint(i)) i++;
		LogF("bpall %u\n", i);
	}
	else if(c == "bplines")	// which lines have code, with their first instructions
	{
		unsigned count = 0;
		ExternSourceInfo *info = nullcDebugSourceInfo(&count);
		std::map<unsigned, unsigned> s;
		for(unsigned i = 0; i < count; i++)
		{
			unsigned m = 0, l = LineOf(info[i].instruction, &m);
			if(m == ~0u && l != ~0u) s.insert(std::make_pair(l, info[i].instruction));
		}
		std::string o;
		for(std::map<unsigned, unsigned>::iterator it = s.begin(); it != s.end(); ++it) { char b[32]; sprintf(b, " %u:%u", it->first, it->second); o += b; }
		LogF("lines%s\n", o.c_str());
	}
	else if(c == "bprel")	// bprel add|one|del PERMILLE: an instruction of the main module
	{
		unsigned count = 0, base = ~0u, last = 0;
		ExternSourceInfo *info = nullcDebugSourceInfo(&count);
		for(unsigned i = 0; i < count; i++)
		{
			unsigned m = 0, l = LineOf(info[i].instruction, &m);
			if(m == ~0u && l != ~0u) { if(info[i].instruction < base) base = info[i].instruction; if(info[i].instruction > last) last = info[i].instruction; }
		}
		unsigned i = base + (unsigned)((last - base) * (unsigned long long)atoi(a[2].c_str()) / 1000);
		r = a[1] == "add" ? nullcDebugAddBreakpoint(i) : a[1] == "one" ? nullcDebugAddOneHitBreakpoint(i) : nullcDebugRemoveBreakpoint(i);
		LogF("bprel %u %d\n", i, (int)r);
	}
	else if(c == "evalexpr")
	{
		char buf[1024] = { 0 };
		r = nullcTestEvaluateExpressionTree(buf, 1024);
		LogF("evalexpr %d %s\n", (int)r, Hex(buf, strlen(buf)).c_str());
	}
	else if(c == "evalinst")
	{
		char buf[1024] = { 0 };
		r = nullcTestEvaluateInstructionTree(buf, 1024);
		LogF("evalinst %d %s\n", (int)r, Hex(buf, strlen(buf)).c_str());
	}
	else if(c == "log")
	{
		LogF("log %s\n", a[1].c_str());
	}
	else if(c == "logfiles")
	{
		nullcSetEnableLogFiles(1, NULL, NULL, NULL);
	}
	else if(!HostCommand(a))
	{
		fprintf(stderr, "unknown command '%s'\n", c.c_str());
		_exit(78);
	}
}

// ---------------------------------------------------------------- job file
struct Job { std::string id; std::vector<Args> cmds; };

static std::string Unescape(const std::string &s)
{
	std::string r;
	for(size_t i = 0; i < s.size(); i++)
	{
		if(s[i] == '\\' && i + 1 < s.size())
		{
			char n = s[++i];
			r += n == 'n' ? '\n' : n == 't' ? '\t' : n == 'r' ? '\r' : n;
		}
		else
			r += s[i];
	}
	return r;
}
static std::vector<Job> ReadJobs(const char *path)
{
	std::vector<Job> jobs;
	FILE *f = fopen(path, "rb");
	if(!f) { fprintf(stderr, "no job file %s\n", path); exit(3); }
	char *line = NULL;
	size_t cap = 0;
	ssize_t n;
	while((n = getline(&line, &cap, f)) >= 0)
	{
		while(n && (line[n - 1] == '\n' || line[n - 1] == '\r')) n--;
		if(!n)
			continue;
		std::string l(line, n);
		Args a;
		size_t p = 0;
		for(;;)
		{
			size_t q = l.find('\t', p);
			a.push_back(Unescape(l.substr(p, q == std::string::npos ? q : q - p)));
			if(q == std::string::npos)
				break;
			p = q + 1;
		}
		if(a[0] == "job")
		{
			jobs.push_back(Job());
			jobs.back().id = a[1];
		}
		else if(!jobs.empty())
			jobs.back().cmds.push_back(a);
	}
	free(line);
	fclose(f);
	return jobs;
}

static const char* g_traceLimit = NULL;

static void ChildRun(const Job &job, int timeoutSec)
{
	struct rlimit rl;
	rl.rlim_cur = rl.rlim_max = 0;
	setrlimit(RLIMIT_CORE, &rl);
	alarm(timeoutSec);
	for(size_t i = 0; i < job.cmds.size(); i++)
		Execute(job.cmds[i]);
	LogF("end\n");
	_exit(0);
}

int SetUp()
{
	nullcInit();
	if(g_importPath)
		nullcAddImportPath(g_importPath);
	nullcSetOptimizationLevel(g_opt);
	nullcSetExecutor(g_exec);
	nullcSetEnableLogFiles(0, NULL, NULL, NULL);
	BindVerif();
	if(g_std)
	{
#define I(f) if(!f()) { fprintf(stderr, "%s failed: %s\n", #f, nullcGetLastError()); return 3; }
		if(!nullcInitIOModule(NULL, ConsoleWrite, ConsoleRead)) { fprintf(stderr, "std.io: %s\n", nullcGetLastError()); return 3; }
		I(nullcInitTypeinfoModule) I(nullcInitFileModule) I(nullcInitMathModule) I(nullcInitVectorModule) I(nullcInitRandomModule)
		I(nullcInitDynamicModule) I(nullcInitGCModule) I(nullcInitMemoryModule) I(nullcInitErrorModule) I(nullcInitStringModule)  I(nullcInitTimeModule)
	}
	for(size_t i = 0; i < g_preload.size(); i++)
	{
		// force modules into the cache
		std::string src = "import " + g_preload[i] + ";\r\nreturn 0;";
		if(!nullcBuild(src.c_str())) { fprintf(stderr, "preload %s: %s\n", g_preload[i].c_str(), nullcGetLastError()); return 3; }
	}
	if(!HostInit())
		return 3;
	return 0;
}

int main(int argc, char **argv)
{
	int exec = 0, opt = 2, par = 2, timeoutSec = 20;
	bool std = false;
	const char *jobsPath = NULL, *outPath = NULL, *importPath = NULL;
	std::vector<std::string> preload;
	for(int i = 1; i < argc; i++)
	{
		std::string s = argv[i];
		if(s == "--exec") exec = atoi(argv[++i]);
		else if(s == "--opt") opt = atoi(argv[++i]);
		else if(s == "--par") par = atoi(argv[++i]);
		else if(s == "--timeout") timeoutSec = atoi(argv[++i]);
		else if(s == "--jobs") jobsPath = argv[++i];
		else if(s == "--out") outPath = argv[++i];
		else if(s == "--import") importPath = argv[++i];
		else if(s == "--preload") preload.push_back(argv[++i]);
		else if(s == "--std") std = true;
		else if(s == "--maxlines") g_maxLines = atoi(argv[++i]);
	}
	std::vector<Job> jobs = ReadJobs(jobsPath);

	g_exec = exec; g_opt = opt; g_std = std; g_importPath = importPath; g_preload = preload;
	if(int r = SetUp())
		return r;
	nullcClean();

	FILE *out = fopen(outPath, "wb");
	if(!out) return 3;

	std::vector<SharedLog*> slots;
	for(int i = 0; i < par; i++)
		slots.push_back((SharedLog*)mmap(NULL, sizeof(SharedLog), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	std::vector<int> slotJob(par, -1);
	std::map<pid_t, int> pidSlot;
	size_t next = 0, done = 0;
	while(done < jobs.size())
	{
		for(int s = 0; s < par && next < jobs.size(); s++)
		{
			if(slotJob[s] != -1)
				continue;
			slots[s]->used = 0;
			slots[s]->overflow = 0;
			slotJob[s] = (int)next++;
			pid_t pid = fork();
			if(pid < 0) { perror("fork"); return 3; }
			if(pid == 0)
			{
				g_log = slots[s];
				int fd = open("/dev/null", O_RDWR);
				if(fd >= 0) { dup2(fd, 0); dup2(fd, 1); if(!getenv("VERIF_STDERR")) dup2(fd, 2); }
				ChildRun(jobs[slotJob[s]], timeoutSec);
			}
			pidSlot[pid] = s;
		}
		int status = 0;
		pid_t pid = wait(&status);
		if(pid < 0) { perror("wait"); return 3; }
		int s = pidSlot[pid];
		pidSlot.erase(pid);
		SharedLog *l = slots[s];
		fprintf(out, "job %s\n", jobs[slotJob[s]].id.c_str());
		fwrite(l->data, 1, l->used, out);
		if(l->used && l->data[l->used - 1] != '\n')
			fprintf(out, "\n");
		if(l->overflow)
			fprintf(out, "overflow\n");
		else if(WIFSIGNALED(status))
			fprintf(out, WTERMSIG(status) == SIGALRM ? "timeout\n" : "crash %d\n", WTERMSIG(status));
		else if(WEXITSTATUS(status))
			fprintf(out, "exit %d\n", WEXITSTATUS(status));
		slotJob[s] = -1;
		done++;
	}
	fclose(out);
	return 0;
}

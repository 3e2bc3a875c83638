// A host of the language: random histories over the embedding API of cora.h, checked
// against a shadow of every value.
//
//   embed run SEED STEPS       random operations
//   embed so FROM TO          compile a file of cora to C
//   embed mem KIND N           one kind of top-level call N times; resident set at N/4 and N
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "cora.h"

extern __attribute__((weak)) long gcVerifInterval;
extern __attribute__((weak)) int gcVerifSteps;

// ---------------------------------------------------------------- shadow values
enum { NUM, STR, NIL, TRUE_, FALSE_, SYM, CONS, VEC, FUN, UNDEF };
enum { N0, N1, N2, N3, N5, NTAIL, NPICK, NAPP, C1, C2, C3, C4, CK, CCOUNT, CTRY, ADD, NFN };
static const int ARITY[NFN] = {0, 1, 2, 3, 5, 2, 1, 3, 1, 2, 3, 4, 1, 1, 1, 2};
static const char *NAME[NFN] = {"n0", "host/m#n1", "n2", "host/m#n3", "n5", "ntail", "npick", "host/m#napp",
                                "c1", "c2", "c3", "c4", "ck", "ccount", "ctry", "cadd"};

typedef struct V V;
struct V {
	int k;
	long n;          // number, length of STR/VEC, function of FUN
	char *s;
	V *a, *d;
	V **e;           // elements of VEC, arguments so far of FUN
	int cap;
	Obj o;           // identity of a gensym
};

static Cora *co;
static unsigned long long rs;
static long step, nops[32], checks, trapped;

static unsigned rnd(unsigned n) {
	rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
	return (unsigned)((rs >> 11) % n);
}

static void fail(const char *f, ...) {
	va_list ap;
	va_start(ap, f);
	printf("MISMATCH at step %ld: ", step);
	vprintf(f, ap);
	printf("\n");
	fflush(stdout);
	_exit(1);
}

static V *mk(int k) { V *v = calloc(1, sizeof *v); v->k = k; return v; }
static V *num(long n) { V *v = mk(NUM); v->n = n; return v; }
static V *cons(V *a, V *d) { V *v = mk(CONS); v->a = a; v->d = d; return v; }
static V *nil(void) { return mk(NIL); }
static V *fun(int f, int n, V **args) {
	V *v = mk(FUN);
	v->n = f;
	v->cap = n;
	v->e = malloc(sizeof(V *) * (n + 1));
	for (int i = 0; i < n; i++) v->e[i] = args[i];
	return v;
}

// the value of a slot, real and shadow
#define SLOTS 12
static V *slot[SLOTS];
static char slotName[SLOTS][8];
static Obj real(int i) { return coraSymbolGet(co, coraMakeSymbol(slotName[i])); }
static void put(int i, V *v, Obj o) {
	slot[i] = v;
	Obj r = coraPrimSet(co, coraMakeSymbol(slotName[i]), o);
	if (r != o) fail("coraPrimSet did not return the value");
}

// ---------------------------------------------------------------- comparison
static void same(Obj o, V *v, int depth) {
	checks++;
	while (v->k == CONS) {
		if (coraIsNumber(o) || coraIsVector(o) || o == Nil) fail("a pair became something else (%lx)", o);
		if (depth < 60) same(coraCar(o), v->a, depth + 1);
		o = coraCdr(o);
		v = v->d;
		checks++;
	}
	if (coraIsNumber(o) != (v->k == NUM)) fail("coraIsNumber is wrong for kind %d", v->k);
	if (coraIsVector(o) != (v->k == VEC)) fail("coraIsVector is wrong for kind %d", v->k);
	switch (v->k) {
	case NUM:
		if (coraFixnum(o) != (int)v->n) fail("number %d instead of %ld", coraFixnum(o), v->n);
		break;
	case STR:
		if (coraBytesLen(o) != v->n) fail("a string of length %d instead of %ld", coraBytesLen(o), v->n);
		if (memcmp(coraBytesData(o), v->s, v->n) != 0) fail("other bytes in a string of length %ld", v->n);
		if (coraBytesData(o)[v->n] != 0) fail("no terminator after a string");
		break;
	case NIL: if (o != Nil) fail("not nil"); break;
	case TRUE_: if (o != True) fail("not true"); break;
	case FALSE_: if (o != False) fail("not false"); break;
	case UNDEF: if (o != Undef) fail("not undef"); break;
	case SYM:
		if (v->s ? o != coraMakeSymbol(v->s) : o != v->o) fail("another symbol than %s", v->s ? v->s : "the gensym");
		break;
	case VEC:
		if (coraVectorLength(o) != v->n) fail("a vector of length %d instead of %ld", coraVectorLength(o), v->n);
		if (depth < 60) for (int i = 0; i < v->n; i++) same(coraVectorRef(o, i), v->e[i], depth + 1);
		break;
	}
}

// ---------------------------------------------------------------- shadow of a call
static int trap;
static long counter;     // what n0 counts
static int fuel;
static V *call(V *f, int n, V **args);

static V *body(int f, V **a) {
	switch (f) {
	case N0: return num(++counter);
	case N1: case C1: return cons(a[0], a[0]);
	case N2: case C2: return cons(a[0], a[1]);
	case N3: return cons(a[2], cons(a[1], cons(a[0], nil())));
	case C3: return cons(a[0], cons(a[1], cons(a[2], nil())));
	case C4: return cons(a[0], cons(a[1], cons(a[2], cons(a[3], nil()))));
	case N5: return cons(a[0], cons(a[1], cons(a[2], cons(a[3], a[4]))));
	case NTAIL: return call(a[0], 1, a + 1);
	case NPICK: {
		// a function by the parity of a number
		if (a[0]->k != NUM) { trap = 1; return nil(); }
		return fun(a[0]->n & 1 ? N3 : C2, 0, NULL);
	}
	case NAPP: return call(a[0], 2, a + 1);
	case CK: {
		// (lambda (y) (lambda (z) (list x y z))) is c3 of x
		return fun(C3, 1, a);
	}
	case CCOUNT: {
		if (a[0]->k != NUM || a[0]->n < 0 || a[0]->n > 4000) { trap = 1; return nil(); }
		V *l = nil();
		for (long i = 1; i <= a[0]->n; i++) l = cons(num(i), l);
		return l;
	}
	case CTRY: return cons(num(1), cons(cons(a[0], a[0]), nil()));
	case ADD:
		if (a[0]->k != NUM || a[1]->k != NUM) { trap = 1; return nil(); }
		if (a[0]->n + a[1]->n > 2147483647L || a[0]->n + a[1]->n < -2147483648L) { trap = 1; return nil(); }
		return num(a[0]->n + a[1]->n);
	}
	abort();
}

static V *call(V *f, int n, V **args) {
	while (1) {
		if (--fuel < 0 || trap || f->k != FUN) { trap = 1; return nil(); }
		int have = f->cap, need = ARITY[f->n];
		V *all[64];
		if (have + n > 60) { trap = 1; return nil(); }
		for (int i = 0; i < have; i++) all[i] = f->e[i];
		for (int i = 0; i < n; i++) all[have + i] = args[i];
		if (have + n < need) return fun((int)f->n, have + n, all);
		V *r = body((int)f->n, all);
		int rest = have + n - need;
		if (rest == 0 || trap) return r;
		args = args + (n - rest);
		n = rest;
		f = r;
	}
}

// ---------------------------------------------------------------- natives of the host
static long realCounter, nativeCalls;

static Obj list(int n, ...) {
	va_list ap;
	va_start(ap, n);
	Obj l = Nil;
	for (int i = 0; i < n; i++) l = coraMakeCons(co, va_arg(ap, Obj), l);
	va_end(ap);
	return coraReverse(co, l);
}
static void n0(Cora *c, int label, Obj *R) { nativeCalls++; coraReturn(c, coraMakeNumber(++realCounter)); }
static void n1(Cora *c, int label, Obj *R) { nativeCalls++; coraReturn(c, coraMakeCons(c, R[1], R[1])); }
static void n2(Cora *c, int label, Obj *R) { nativeCalls++; coraReturn(c, coraMakeCons(c, R[1], R[2])); }
static void n3(Cora *c, int label, Obj *R) {
	nativeCalls++;
	Obj l = Nil;
	for (int i = 1; i <= 3; i++) l = coraMakeCons(c, R[i], l);
	coraReturn(c, l);
}
static void n5(Cora *c, int label, Obj *R) {
	nativeCalls++;
	Obj l = R[5];
	for (int i = 4; i >= 1; i--) l = coraMakeCons(c, R[i], l);
	coraReturn(c, l);
}
static void ntail(Cora *c, int label, Obj *R) { nativeCalls++; Obj a[1] = {R[2]}; coraCall(c, R[1], 1, a); }
static void napp(Cora *c, int label, Obj *R) { nativeCalls++; Obj a[2] = {R[2], R[3]}; coraCall(c, R[1], 2, a); }
static void npick(Cora *c, int label, Obj *R) {
	nativeCalls++;
	coraReturn(c, coraSymbolGet(c, coraMakeSymbol(coraFixnum(R[1]) & 1 ? "host/m#n3" : "c2")));
}
static void nthrow(Cora *c, int label, Obj *R) {
	nativeCalls++;
	Obj a[1] = {R[1]};
	coraCall(c, coraSymbolGet(c, coraMakeSymbol("throw")), 1, a);
}

// ---------------------------------------------------------------- the host
static Obj sym(char *s) { return coraMakeSymbol(s); }
static Obj callReal(Obj f, int n, Obj *args) {
	coraCall(co, f, n, args);
	coraRun(co);
	return coraGetResult(co);
}
static Obj global(char *s) { return coraSymbolGet(co, sym(s)); }
static Obj eval(Obj exp) {
	Obj a[1] = {exp};
	Obj b[2] = {callReal(global("macroexpand"), 1, a), Nil};
	return callReal(global("cora/lib/eval#eval"), 2, b);
}
static Obj quote(Obj x) { return list(2, sym("quote"), x); }
static Obj lambda(int n, char **ps, Obj b) {
	Obj l = Nil;
	for (int i = n - 1; i >= 0; i--) l = coraMakeCons(co, sym(ps[i]), l);
	return list(3, sym("lambda"), l, b);
}
static void define(char *name, Obj exp) {
	Obj v = eval(exp);
	coraPrimSet(co, sym(name), v);
}

static void start(void) {
	co = coraInit();
	Obj a[1];
	char *libs[] = {"cora/init", "cora/lib/toc", "cora/lib/eval"};
	for (int i = 0; i < 3; i++) {
		a[0] = coraMakeCString(co, libs[i]);
		callReal(global("import"), 1, a);
	}
	coraRegisterAPI(co, NULL, "n0", n0, 0);
	coraRegisterAPI(co, "host/m", "n1", n1, 1);
	coraRegisterAPI(co, NULL, "n2", n2, 2);
	coraRegisterAPI(co, "host/m", "n3", n3, 3);
	coraRegisterAPI(co, NULL, "n5", n5, 5);
	coraRegisterAPI(co, NULL, "ntail", ntail, 2);
	coraRegisterAPI(co, NULL, "npick", npick, 1);
	coraRegisterAPI(co, "host/m", "napp", napp, 3);
	coraRegisterAPI(co, NULL, "nthrow", nthrow, 1);
	char *x[] = {"x", "y", "z", "w"};
	Obj X = sym("x"), Y = sym("y"), Z = sym("z"), W = sym("w");
	define("c1", lambda(1, x, list(3, sym("cons"), X, X)));
	define("c4", lambda(4, x, list(5, sym("list"), X, Y, Z, W)));
	define("cadd", lambda(2, x, list(3, sym("+"), X, Y)));
	// compiled ones
	Obj so[2] = {coraMakeCString(co, getenv("EMBED_SO")), coraMakeCString(co, "")};
	callReal(global("load-so"), 2, so);
	// what was registered is exported, the last first
	Obj e = global("host/m#*ns-export*");
	char *want[] = {"napp", "n3", "n1"};
	for (int i = 0; i < 3; i++, e = coraCdr(e))
		if (coraCar(e) != sym(want[i])) fail("the exports of a registered module");
	if (e != Nil) fail("more exports");
	for (int i = 0; i < SLOTS; i++) {
		snprintf(slotName[i], sizeof slotName[i], "s%d", i);
		put(i, nil(), Nil);
	}
}

static V *copyBytes(char *s, long n) {
	V *v = mk(STR);
	v->n = n;
	v->s = malloc(n + 1);
	memcpy(v->s, s, n);
	return v;
}

// how many pairs and elements a value has, up to a limit
static long weigh(V *v, long left) {
	long n = 1;
	while (v->k == CONS && left > n) { n += weigh(v->a, left - n); v = v->d; }
	if (v->k == VEC || v->k == FUN) {
		long m = v->k == VEC ? v->n : v->cap;
		for (long i = 0; i < m && n < left; i++) n += weigh(v->e[i], left - n);
	}
	return n;
}

// x is part of v
static int inside(V *v, V *x, int fuel_) {
	while (1) {
		if (v == x) return 1;
		if (--fuel_ < 0) return 1;
		if (v->k == CONS) { if (inside(v->a, x, fuel_)) return 1; v = v->d; continue; }
		if (v->k == VEC || v->k == FUN) {
			long m = v->k == VEC ? v->n : v->cap;
			for (long i = 0; i < m; i++) if (inside(v->e[i], x, fuel_ - 1)) return 1;
		}
		return 0;
	}
}

static int lim(int i) {
	// values do not grow without bound
	if (weigh(slot[i], 3000) >= 3000) put(i, nil(), Nil);
	return i;
}

static void step1(void) {
	int a = rnd(SLOTS), b = rnd(SLOTS), c = rnd(SLOTS), op = rnd(20);
	nops[op]++;
	switch (op) {
	case 0: {
		static const int edge[] = {0, 1, -1, 2147483647, -2147483647 - 1, 65536, 1 << 30, -(1 << 30), 255};
		int n = rnd(2) ? edge[rnd(9)] : rnd(3) ? (int)rnd(4000) : (int)(rnd(1u << 16) << 16 | rnd(1u << 16));
		put(a, num(n), coraMakeNumber(n));
		break;
	}
	case 1: {
		static char buf[70000];
		int n = rnd(4) ? rnd(40) : rnd(3) ? rnd(3000) : rnd(70000);
		for (int i = 0; i < n; i++) buf[i] = rnd(4) ? 'a' + rnd(26) : rnd(256);
		if (rnd(2)) {
			put(a, copyBytes(buf, n), coraMakeString(co, buf, n));
		} else if (rnd(2)) {
			buf[n ? n - 1 : 0] = 0;
			put(a, copyBytes(buf, strlen(buf)), coraMakeCString(co, buf));
		} else {
			Obj o = coraMakeBytes(co, n);
			if (coraBytesLen(o) != n) fail("coraMakeBytes(%d)", n);
			memcpy(coraBytesData(o), buf, n);
			put(a, copyBytes(buf, n), o);
		}
		break;
	}
	case 2: case 3: case 4: {
		Obj o = coraMakeCons(co, real(lim(b)), real(lim(c)));
		put(a, cons(slot[b], slot[c]), o);
		break;
	}
	case 5:
		if (slot[b]->k == CONS) {
			V *v = slot[b];
			if (rnd(2)) put(a, v->a, coraCar(real(b)));
			else put(a, v->d, coraCdr(real(b)));
		}
		break;
	case 6: {
		// reverse a proper list
		V *l = slot[b], *r = nil();
		for (; l->k == CONS; l = l->d) r = cons(l->a, r);
		if (l->k == NIL) put(a, r, coraReverse(co, real(b)));
		break;
	}
	case 7: {
		V *v = mk(VEC);
		v->n = rnd(3) ? rnd(6) : rnd(300);
		v->cap = v->n + rnd(5);
		if (v->cap == 0) v->cap = 1;
		v->e = malloc(sizeof(V *) * 4001);
		for (int i = 0; i < v->n; i++) v->e[i] = mk(UNDEF);
		Obj o = coraMakeVector(co, (int)v->n, v->cap);
		put(a, v, o);
		break;
	}
	case 8: case 9: {
		lim(c);
		V *v = slot[b];
		if (v->k != VEC || v->n == 0) break;
		int i = rnd((unsigned)v->n);
		if (inside(slot[c], v, 200)) break;   // no cycles
		if (coraVectorSet(co, real(b), i, real(c)) != real(b)) fail("coraVectorSet returned something else");
		v->e[i] = slot[c];
		break;
	}
	case 10: {
		V *v = slot[b];
		if (v->k != VEC || v->n == 0) break;
		int i = rnd((unsigned)v->n);
		put(a, v->e[i], coraVectorRef(real(b), i));
		break;
	}
	case 11: case 12: {
		lim(c);
		V *v = slot[b];
		int times = rnd(4) ? 1 : rnd(2000);
		if (v->k != VEC) break;
		if (inside(slot[c], v, 200)) break;
		for (int i = 0; i < times && v->n < 4000; i++) {
			Obj before = real(b);
			Obj o = coraVectorAppend(co, before, real(c));
			if (o != before) {
				// a new vector; the old one stays as it was
				V *w = mk(VEC);
				w->n = v->n;
				w->e = malloc(sizeof(V *) * 4001);
				memcpy(w->e, v->e, sizeof(V *) * v->n);
				v = w;
			}
			v->e[v->n++] = slot[c];
			put(b, v, o);
		}
		break;
	}
	case 13: {
		if (rnd(2)) {
			char s[200];
			int n = rnd(3) ? 1 + rnd(8) : 1 + rnd(190);
			for (int i = 0; i < n; i++) s[i] = rnd(5) ? 'a' + rnd(3) : "#-?!/ ()\""[rnd(9)];
			s[n] = 0;
			V *v = mk(SYM);
			v->s = strdup(s);
			Obj o = coraMakeSymbol(s);
			memset(s, 'X', n);
			if (coraMakeSymbol(v->s) != o) fail("a name gave two symbols");
			put(a, v, o);
		} else {
			V *v = mk(SYM);
			v->o = coraPrimGenSym(co);
			for (int i = 0; i < SLOTS; i++) if (real(i) == v->o) fail("a gensym is not new");
			put(a, v, v->o);
			if (rnd(2)) {
				if (inside(slot[b], v, 200)) break;
				coraPrimSet(co, real(a), real(b));
				same(coraSymbolGet(co, real(a)), slot[b], 0);
			}
		}
		break;
	}
	case 14: {
		int k = rnd(3);
		put(a, mk(k == 0 ? NIL : k == 1 ? TRUE_ : FALSE_), k == 0 ? Nil : k == 1 ? True : False);
		break;
	}
	case 15: case 16: case 17: case 18: {
		// a call: by the host, or by evaluating a form
		int n, how = rnd(4);
		if (slot[b]->k != FUN || rnd(3) == 0) {
			int i = rnd(NFN);
			put(b, fun(i, 0, NULL), global((char *)NAME[i]));
		}
		V *f = slot[b];
		Obj fo = real(b);
		int need = ARITY[f->n] - f->cap;
		n = rnd(4) ? need : rnd(2) ? need + 1 + rnd(3) : rnd(6);
		V *args[10];
		int from[10];
		for (int i = 0; i < n; i++) {
			// what the function can do something with, most of the time
			int k = -1, pos = f->cap + i;
			if (f->n == ADD || f->n == NPICK || f->n == CCOUNT) k = NUM;
			if ((f->n == NTAIL || f->n == NAPP) && pos == 0) k = FUN;
			int t = rnd(SLOTS), tries = 30;
			if (rnd(10) && k >= 0) {
				while (slot[t]->k != k && --tries) t = rnd(SLOTS);
				while (t == b) t = rnd(SLOTS);
				if (slot[t]->k != k && k == FUN) {
					int g = rnd(NFN);
					put(t, fun(g, 0, NULL), global((char *)NAME[g]));
				}
				if (k == NUM && (slot[t]->k != NUM || f->n == CCOUNT || rnd(2))) {
					int x = f->n == CCOUNT && rnd(4) == 0 ? rnd(4000) : rnd(200);
					put(t, num(x), coraMakeNumber(x));
				}
			}
			from[i] = lim(t);
		}
		// what was put over an earlier choice counts
		f = slot[b];
		fo = real(b);
		for (int i = 0; i < n; i++) args[i] = slot[from[i]];
		if (f->k != FUN) break;
		if (n == 0 && ARITY[f->n] > f->cap) {
			// a function applied to nothing is itself
			if (how < 2) { how = 2; }
		}
		long before = counter;
		trap = 0;
		fuel = 50;
		V *want = call(f, n, args);
		if (trap) { counter = before; trapped++; break; }
		Obj r;
		if (how < 3) {
			Obj av[8];
			for (int i = 0; i < n; i++) av[i] = real(from[i]);
			r = callReal(fo, n, av);
		} else {
			// ('f 'a 'b ...) as a form
			Obj l = Nil;
			for (int i = n - 1; i >= 0; i--) l = coraMakeCons(co, quote(real(from[i])), l);
			coraPrimSet(co, sym("callee"), fo);
			Obj form[2] = {coraMakeCons(co, sym("callee"), l), Nil};
			r = callReal(global("cora/lib/eval#eval"), 2, form);
		}
		same(r, want, 0);
		put(a, want, r);
		if (counter != realCounter) fail("a native was called %ld times instead of %ld", realCounter, counter);
		break;
	}
	case 19: {
		// make garbage, in frames deep and flat
		Obj x[1] = {coraMakeNumber(rnd(2500))};
		callReal(global("ccount"), 1, x);
		break;
	}
	}
	same(real(a), slot[a], 0);
	if (rnd(16) == 0) for (int i = 0; i < SLOTS; i++) same(real(i), slot[i], 0);
}

static long rss(void) {
	long size, res = 0;
	FILE *f = fopen("/proc/self/statm", "r");
	if (f == NULL || fscanf(f, "%ld %ld", &size, &res) != 2) exit(97);
	fclose(f);
	return res * (sysconf(_SC_PAGESIZE) / 1024);
}

static void mem(int kind, long n) {
	long at = 0;
	Obj one = coraMakeNumber(1);
	for (long i = 0; i < n; i++) {
		if (i == n / 4) at = rss();
		// the collector only runs where code runs
		if (i % 64 == 0) callReal(global("n0"), 0, NULL);
		Obj a[8] = {one, one, one, one, one, one, one, one};
		switch (kind) {
		case 0: callReal(global("n2"), 2, a); break;
		case 1: callReal(global("c3"), 3, a); break;
		case 2: callReal(global("c4"), 2, a); break;
		case 3: callReal(global("ck"), 3, a); break;
		case 4: a[0] = global("host/m#n1"); callReal(global("ntail"), 2, a); break;
		case 5: callReal(global("ctry"), 1, a); break;
		case 6: a[0] = coraMakeNumber(i % 400); callReal(global("ccount"), 1, a); break;
		case 7: {
			Obj f[2] = {list(3, sym("+"), one, one), Nil};
			callReal(global("cora/lib/eval#eval"), 2, f);
			break;
		}
		case 8: a[0] = coraMakeString(co, "some string that is not too short", 33); callReal(global("host/m#n1"), 1, a); break;
		case 9: a[0] = coraPrimGenSym(co); coraPrimSet(co, a[0], one); callReal(global("n2"), 2, a); break;
		case 10: {
			Obj v = coraMakeVector(co, 0, 1);
			for (int j = 0; j < 40; j++) v = coraVectorAppend(co, v, one);
			a[0] = v;
			callReal(global("c1"), 1, a);
			break;
		}
		case 11: callReal(global("c1"), 0, a); break;
		}
	}
	printf("mem %d %ld %ld\n", kind, at, rss());
}

int main(int argc, char **argv) {
	setvbuf(stdout, NULL, _IOLBF, 1 << 12);
	if (argc < 4) return 2;
	if (strcmp(argv[1], "so") == 0) {
		// embed so FROM TO
		co = coraInit();
		char *libs[] = {"cora/init", "cora/lib/toc"};
		for (int i = 0; i < 2; i++) {
			Obj a[1] = {coraMakeCString(co, libs[i])};
			callReal(global("import"), 1, a);
		}
		Obj a[2] = {coraMakeCString(co, argv[2]), coraMakeCString(co, argv[3])};
		callReal(global("cora/lib/toc#compile-to-c"), 2, a);
		return 0;
	}
	start();
	if (strcmp(argv[1], "mem") == 0) {
		mem(atoi(argv[2]), atol(argv[3]));
		return 0;
	}
	rs = strtoull(argv[2], NULL, 10) * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
	for (int i = 0; i < 10; i++) rnd(2);
	long steps = atol(argv[3]);
	if (&gcVerifInterval && getenv("EMBED_GC")) gcVerifInterval = atol(getenv("EMBED_GC"));
	for (step = 0; step < steps; step++) step1();
	for (int i = 0; i < SLOTS; i++) same(real(i), slot[i], 0);
	printf("done %ld checks %ld natives %ld trapped %ld\n", step, checks, nativeCalls, trapped);
	for (int i = 0; i < 20; i++) printf("op %d %ld\n", i, nops[i]);
	return 0;
}

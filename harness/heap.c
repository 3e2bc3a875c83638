// Random mutator over the embedding API with a shadow copy of the whole object graph.
//   heap seed rounds profile
// After every round everything that the shadow graph says is reachable is compared with the
// real heap: kind, contents, identity of the children.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include "cora.h"

typedef uint64_t u64;
extern __attribute__((weak)) long gcVerifInterval;
extern __attribute__((weak)) int gcVerifSteps;

static u64 rs;
static u64 rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static int below(int n) { return (int)(rnd() % (u64)n); }

enum { KCONS, KVEC, KSTR, KGEN };
typedef struct Node {
	int kind, n;         // n: slots or bytes
	unsigned fill;       // bytes contents
	Obj obj;
	struct Val *slot;
	int mark, idx;
} Node;
typedef struct Val { Node *node; Obj imm; } Val;      // node, or an immediate value

static Cora *co;
static Node **all;
static int nall, capall;
#define ROOTS 40
static Val roots[ROOTS];
#define GLOBALS 24
static Val globals[GLOBALS];
static Obj globalSym[GLOBALS];
static Obj rootVec, rootSym;
static u64 nalloc, nmut, nverify, nchecked, maxlive, nlarge, nbytes, npolls;

static void fail(const char *what, Node *n) {
	printf("HEAP-VIOLATION %s kind=%d n=%d round-state alloc=%lu mut=%lu polls=%lu\n", what, n ? n->kind : -1, n ? n->n : 0,
		(unsigned long)nalloc, (unsigned long)nmut, (unsigned long)npolls);
	fflush(stdout);
	exit(1);
}

static Node *node(int kind, int n) {
	Node *x = calloc(1, sizeof *x);
	x->kind = kind;
	x->n = n;
	if (kind == KCONS || kind == KVEC) x->slot = calloc(n ? n : 1, sizeof(Val));
	if (nall == capall) all = realloc(all, sizeof *all * (capall = capall ? 2 * capall : 1024));
	all[nall++] = x;
	nalloc++;
	return x;
}

static Obj val(Val v) { return v.node ? v.node->obj : v.imm; }

static Val imm(void) {
	Val v = {NULL, 0};
	switch (below(5)) {
	case 0: v.imm = True; break;
	case 1: v.imm = False; break;
	case 2: v.imm = Nil; break;
	default: v.imm = coraMakeNumber(below(2000000) - 1000000);
	}
	return v;
}

static Val pick(int depth);

static unsigned char pat(unsigned fill, int i) { return (unsigned char)((fill + i * 2654435761u) >> 13); }

static int profile;
static int strSize(void) {
	int k = below(100);
	if (profile == 3 && k < 3) return 1000000 + below(30000000);
	if (profile == 3 && k < 20) return 4000 + below(200000);
	if (profile == 2 && k < 30) return 4000 + below(200);
	if (profile == 2 && k < 60) return 4096 + below(60000);
	if (profile == 2 && k < 62) return 200000 + below(1500000);
	if (k < 50) return below(64);
	if (k < 80) return below(600);
	if (k < 95) return below(4200);
	if (k < 99) return below(20000);
	return below(200000);
}
static int vecSize(void) {
	int k = below(100);
	if (profile == 2 && k < 30) return 480 + below(60);
	if (profile == 2 && k < 40) return below(20000);
	if (k < 60) return below(12);
	if (k < 90) return below(80);
	if (k < 98) return below(600);
	return below(3000);
}

static Node *make(void) {
	int k = below(100);
	if (k < 50) {
		Node *x = node(KCONS, 2);
		x->slot[0] = pick(4);
		x->slot[1] = pick(4);
		x->obj = coraMakeCons(co, val(x->slot[0]), val(x->slot[1]));
		nbytes += 24;
		return x;
	}
	if (k < 75) {
		int n = vecSize();
		Node *x = node(KVEC, n);
		int cap = n + (below(3) ? 0 : below(8));
		x->obj = coraMakeVector(co, n, cap ? cap : 1);
		nbytes += 40 + 8 * n;
		nlarge += n > 507;
		for (int i = 0; i < n; i++) {
			x->slot[i].imm = Undef;
			if (i < 8 || below(10) == 0) {
				x->slot[i] = pick(4);
				coraVectorSet(co, x->obj, i, val(x->slot[i]));
			}
		}
		return x;
	}
	if (k < 95) {
		int n = strSize();
		Node *x = node(KSTR, n);
		x->fill = (unsigned)rnd();
		char *buf = malloc(n + 1);
		for (int i = 0; i < n; i++) buf[i] = (char)pat(x->fill, i);
		x->obj = coraMakeString(co, buf, n);
		nbytes += 16 + n;
		nlarge += n > 4080;
		free(buf);
		return x;
	}
	Node *x = node(KGEN, 0);
	x->obj = coraPrimGenSym(co);
	return x;
}

// walk from a random root
static Val pick(int depth) {
	if (below(3) == 0) return imm();
	Val v = below(2) ? roots[below(ROOTS)] : globals[below(GLOBALS)];
	int d = below(12);
	while (d-- > 0 && v.node && v.node->slot && v.node->n > 0) {
		Val w = v.node->slot[below(v.node->n)];
		if (!w.node) break;
		v = w;
	}
	if (!v.node && v.imm == Undef) return imm();
	return v;
}

static void setRoot(int i, Val v) {
	roots[i] = v;
	coraVectorSet(co, rootVec, i, val(v));
}
static void setGlobal(int i, Val v) {
	if (!v.node && v.imm == Undef) v = imm();
	globals[i] = v;
	coraPrimSet(co, globalSym[i], val(v));
}

static void mutate(void) {
	nmut++;
	Val fresh = {NULL, 0};
	int k = below(100);
	if (k < 45) {
		fresh.node = make();
		if (below(2)) setRoot(below(ROOTS), fresh);
		else {
			// hang it below something
			Val v = pick(4);
			if (v.node && v.node->kind == KVEC && v.node->n) {
				int i = below(v.node->n);
				v.node->slot[i] = fresh;
				coraVectorSet(co, v.node->obj, i, fresh.node->obj);
			} else setGlobal(below(GLOBALS), fresh);
		}
	} else if (k < 80) {
		Val v = pick(4);
		if (v.node && v.node->kind == KVEC && v.node->n) {
			int i = below(v.node->n);
			if (below(3) == 0) { fresh.node = make(); }
			else fresh = pick(4);
			v.node->slot[i] = fresh;
			coraVectorSet(co, v.node->obj, i, val(fresh));
		}
	} else if (k < 88) {
		// move: unlink here, relink elsewhere
		Val v = pick(4);
		if (v.node && v.node->kind == KVEC && v.node->n) {
			int i = below(v.node->n);
			Val w = v.node->slot[i];
			v.node->slot[i] = imm();
			coraVectorSet(co, v.node->obj, i, val(v.node->slot[i]));
			if (w.node) {
				if (below(2)) { Node *x = node(KCONS, 2); x->slot[0] = w; x->slot[1] = imm();
					x->obj = coraMakeCons(co, val(w), val(x->slot[1])); w.node = x; }
				setRoot(below(ROOTS), w);
			}
		}
	} else if (k < 94) setRoot(below(ROOTS), pick(4));
	else if (k < 97) setGlobal(below(GLOBALS), pick(4));
	else if (k < 99) setRoot(below(ROOTS), imm());
	else { setGlobal(below(GLOBALS), imm()); }
}

static Node **stack;
static int capstack;
static u64 liveBytes(Node *n) { return n->kind == KSTR ? 17 + n->n : n->kind == KVEC ? 40 + 8 * n->n : 48; }

static u64 liveNow;
static void compare(int deep) {
	// mark what is reachable in the shadow, compare it with the heap, drop the rest
	static int epoch;
	epoch++;
	int sp = 0;
#define PUSH(v, real) do { Val v_ = (v); Obj r_ = (real); \
		if (v_.node ? r_ != v_.node->obj : r_ != v_.imm) fail("a slot does not hold what was stored", v_.node); \
		if (v_.node && v_.node->mark != epoch) { v_.node->mark = epoch; \
			if (sp == capstack) stack = realloc(stack, sizeof *stack * (capstack = capstack ? 2 * capstack : 1024)); \
			stack[sp++] = v_.node; } } while (0)
	if (coraSymbolGet(co, rootSym) != rootVec) fail("root", NULL);
	for (int i = 0; i < ROOTS; i++) PUSH(roots[i], coraVectorRef(rootVec, i));
	for (int i = 0; i < GLOBALS; i++) PUSH(globals[i], coraSymbolGet(co, globalSym[i]));
	u64 live = 0, bytes = 0;
	while (sp) {
		Node *n = stack[--sp];
		live++;
		bytes += liveBytes(n);
		switch (n->kind) {
		case KCONS:
			PUSH(n->slot[0], deep ? coraCar(n->obj) : val(n->slot[0]));
			PUSH(n->slot[1], deep ? coraCdr(n->obj) : val(n->slot[1]));
			break;
		case KVEC:
			if (deep && coraVectorLength(n->obj) != n->n) fail("vector length", n);
			for (int i = 0; i < n->n; i++) PUSH(n->slot[i], deep ? coraVectorRef(n->obj, i) : val(n->slot[i]));
			break;
		case KSTR:
			if (!deep) break;
			if (coraBytesLen(n->obj) != n->n) fail("string length", n);
			{
				unsigned char *p = (unsigned char *)coraBytesData(n->obj);
				for (int i = 0; i < n->n; i += (n->n > 3000 && i > 64 && i < n->n - 64) ? (n->n > 300000 ? 997 : 61) : 1) if (p[i] != pat(n->fill, i)) fail("string contents", n);
			}
			break;
		}
	}
	if (deep) { nverify++; nchecked += live; }
	if (live > maxlive) maxlive = live;
	int k = 0;
	for (int i = 0; i < nall; i++) {
		if (all[i]->mark == epoch) all[k++] = all[i];
		else { free(all[i]->slot); free(all[i]); }
	}
	nall = k;
	liveNow = bytes;
}

// Ballast: small objects that fill more than one arena of the heap.
#define BALLAST 400
static Obj ballastSym;
static void ballast(void) {
	ballastSym = coraMakeSymbol("verif-ballast");
	Obj v = coraMakeVector(co, BALLAST, BALLAST);
	coraPrimSet(co, ballastSym, v);
	for (int i = 0; i < BALLAST; i++) {
		Obj w = coraMakeVector(co, BALLAST, BALLAST);
		coraVectorSet(co, v, i, w);
		for (int j = 0; j < BALLAST; j++) {
			char b[500];
			int n = 400 + (i + j) % 100;
			for (int k = 0; k < n; k++) b[k] = (char)pat(i * BALLAST + j, k);
			coraVectorSet(co, w, j, coraMakeString(co, b, n));
		}
	}
}
static void ballastCheck(void) {
	Obj v = coraSymbolGet(co, ballastSym);
	for (int i = 0; i < BALLAST; i++) {
		Obj w = coraVectorRef(v, i);
		if (coraVectorLength(w) != BALLAST) fail("ballast vector", NULL);
		for (int j = 0; j < BALLAST; j++) {
			Obj o = coraVectorRef(w, j);
			int n = 400 + (i + j) % 100;
			if (coraBytesLen(o) != n) fail("ballast string length", NULL);
			unsigned char *p = (unsigned char *)coraBytesData(o);
			for (int k = 0; k < n; k += 7) if (p[k] != pat(i * BALLAST + j, k)) fail("ballast string contents", NULL);
		}
	}
}

static void tick(Cora *co, int label, Obj *R) { coraReturn(co, Nil); }

static void poll(void) {
	npolls++;
	coraCall(co, coraSymbolGet(co, coraMakeSymbol("verif-tick")), 0, NULL);
	coraRun(co);
}

int main(int argc, char **argv) {
	rs = strtoull(argv[1], 0, 10) * 0x9e3779b97f4a7c15ull + 88172645463325252ull;
	for (int i = 0; i < 20; i++) rnd();
	int rounds = atoi(argv[2]);
	profile = atoi(argv[3]);
	co = coraInit();
	coraRegisterAPI(co, NULL, "verif-tick", tick, 0);
	rootSym = coraMakeSymbol("verif-roots");
	rootVec = coraMakeVector(co, ROOTS, ROOTS);
	for (int i = 0; i < ROOTS; i++) coraVectorSet(co, rootVec, i, Nil), roots[i].imm = Nil;
	coraPrimSet(co, rootSym, rootVec);
	for (int i = 0; i < GLOBALS; i++) {
		char b[40];
		snprintf(b, sizeof b, "verif-g%d", i);
		globalSym[i] = coraMakeSymbol(b);
		setGlobal(i, imm());
	}
	if (profile == 3) ballast();
	u64 limit = profile == 3 ? 120u << 20 : profile == 2 ? 8u << 20 : profile == 1 ? 2u << 20 : 300000;
	for (int r = 0; r < rounds; r++) {
		int ops = 1 + below(profile == 0 ? 30 : 60);
		for (int i = 0; i < ops; i++) mutate();
		int quiet = below(4) == 0;
		compare(quiet);
		while (liveNow > limit) {
			for (int i = 0; i < 8; i++) { setRoot(below(ROOTS), imm()); setGlobal(below(GLOBALS), imm()); }
			compare(0);
		}
		if (below(3)) poll();
		compare(quiet || below(8) == 0);
		if (profile == 3 && r % 100 == 99) ballastCheck();
	}
	if (profile == 3) ballastCheck();
	compare(1);
	struct rusage u;
	getrusage(RUSAGE_SELF, &u);
	printf("HEAP-OK allocs=%lu mutations=%lu polls=%lu verifies=%lu checked=%lu maxlive=%lu large=%lu bytes=%lu rss_kb=%ld\n",
		(unsigned long)nalloc, (unsigned long)nmut, (unsigned long)npolls, (unsigned long)nverify, (unsigned long)nchecked,
		(unsigned long)maxlive, (unsigned long)nlarge, (unsigned long)nbytes, u.ru_maxrss);
	return 0;
}

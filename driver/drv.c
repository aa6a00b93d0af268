// Conformance driver: executes a script of ecclib API calls (one per line) and
// logs one JSON event per call: operation, arguments, return values, and every
// live object whose observable value changed ("c").  Long constants (moduli,
// curve parameter sets) are logged once and referred to by key ("k").
//
// Object handles: f<i> field element, c<i> curve, p<i> point, s<i> signature
// scheme, g<i> signature, e<i> ElGamal ciphertext.
#include <ecc.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>

#ifdef WITH_MEM
#include "mem.h"
#define malloc drv_malloc
#define calloc drv_calloc
#define realloc drv_realloc
#define free drv_free
#undef strdup
#define strdup drv_strdup
static unsigned long residue;      // bytes a clearing call left in the object itself
static void left(const void *p, size_t n) { const unsigned char *b = p; while (n--) residue += *b++ != 0; }
#define LEFT(o) left((o), sizeof *(o))
#else
#define LEFT(o) (void)0
#endif

#ifdef THREADED             // (thr.c) the state of the interpreter belongs to a thread
#define TLS __thread
#define NH 128
#else
#define TLS
#define NH 64
#endif
#define MAXTOK 8192

typedef struct { int live, valid, secret; char *last; } meta_t;
static mpFp_t F[NH];  static meta_t mF[NH];
static mpECurve_t C[NH]; static meta_t mC[NH];
static mpECP_t P[NH]; static meta_t mP[NH];
static mpECDSASignatureScheme_t S[NH]; static meta_t mS[NH];
static mpECDSASignature_t G[NH]; static meta_t mG[NH];
static mpECElgamalCiphertext_t E[NH]; static meta_t mE[NH];

#ifndef THREADED
static FILE *out;
#endif
static TLS char *tok[MAXTOK]; static TLS int nt;

static void die(const char *m) { fprintf(stderr, "driver: %s (op %s)\n", m, nt ? tok[0] : "?"); _exit(3); }

// ---- string building -------------------------------------------------------
typedef struct { char *b; size_t n, cap; } sb_t;
static void sb_add(sb_t *s, const char *t, size_t l) {
    if (s->n + l + 1 > s->cap) { s->cap = (s->n + l + 1) * 2; s->b = realloc(s->b, s->cap); }
    memcpy(s->b + s->n, t, l); s->n += l; s->b[s->n] = 0;
}
static void sb_str(sb_t *s, const char *t) { sb_add(s, t, strlen(t)); }
static void sb_fmt(sb_t *s, const char *f, ...) {
    char tmp[256]; va_list ap; va_start(ap, f); vsnprintf(tmp, sizeof tmp, f, ap); va_end(ap); sb_str(s, tmp);
}
static void sb_reset(sb_t *s) { s->n = 0; if (!s->b) sb_str(s, ""); s->b[0] = 0; }

// ---- interned constants ----------------------------------------------------
static TLS char **ktab; static TLS int nk; static TLS int knew_from;
#ifdef THREADED             // the same constant has the same key in all threads
static int kid(int i) { unsigned h = 2166136261u; const char *p = ktab[i]; while (*p) h = (h ^ (unsigned char)*p++) * 16777619u; return (int)(h & 0x7fffffff); }
#else
static int kid(int i) { return i; }
#endif
static int intern(const char *content) {   // returns the number of its key
    int i;
    for (i = 0; i < nk; i++) if (!strcmp(ktab[i], content)) return kid(i);
    ktab = realloc(ktab, (nk + 1) * sizeof *ktab);
    ktab[nk] = strdup(content);
    return kid(nk++);
}
static void sb_mpz(sb_t *s, mpz_t z) { char *t = mpz_get_str(NULL, 16, z); sb_str(s, t); free(t); }

static int mod_key(mpz_t p) {
    sb_t s = {0}; int k; sb_str(&s, "\"m\",\""); sb_mpz(&s, p); sb_str(&s, "\"");
    k = intern(s.b); free(s.b); return k;
}
static void sb_fe(sb_t *s, mpFp_t f) {
    mpz_t z; mpz_init(z);
    mpz_set_ui(z, 1); mpz_mul_2exp(z, z, 1500); mpz_neg(z, z); // stale content
    mpz_set_mpFp(z, f); sb_mpz(s, z); mpz_clear(z);
}
static int curve_key(mpECurve_ptr c) {
    sb_t s = {0}; int k;
    mpFp_ptr a = NULL, b = NULL; const char *t = "??";
    switch (c->type) {
        case EQTypeShortWeierstrass: t = "ws"; a = c->coeff.ws.a; b = c->coeff.ws.b; break;
        case EQTypeEdwards: t = "ed"; a = c->coeff.ed.c; b = c->coeff.ed.d; break;
        case EQTypeMontgomery: t = "mo"; a = c->coeff.mo.B; b = c->coeff.mo.A; break;
        case EQTypeTwistedEdwards: t = "te"; a = c->coeff.te.a; b = c->coeff.te.d; break;
        default: break;
    }
    sb_fmt(&s, "\"%s\"", t);
    if (a) {
        sb_str(&s, ",\""); sb_mpz(&s, c->fp->p);
        sb_str(&s, "\",\""); sb_fe(&s, a);
        sb_str(&s, "\",\""); sb_fe(&s, b);
        sb_str(&s, "\",\""); sb_mpz(&s, c->n);
        sb_str(&s, "\",\""); sb_mpz(&s, c->h);
        sb_str(&s, "\",\""); sb_mpz(&s, c->G[0]);
        sb_str(&s, "\",\""); sb_mpz(&s, c->G[1]);
        sb_fmt(&s, "\",\"%u\"", c->bits);
    }
    k = intern(s.b); free(s.b); return k;
}
// value of a point, taken from a private copy so that the object's own
// (projective) representation is left as the operation produced it
static void sb_pt(sb_t *s, mpECP_t p) {
    mpECP_t q; mpz_t z;
    sb_fmt(s, "\"K%d\",", curve_key(p->cvp));
    if (p->is_neutral) { sb_str(s, "\"1\",\"0\",\"0\""); return; }
    mpECP_init(q, p->cvp); mpECP_set(q, p);
    mpz_init(z);
    sb_str(s, "\"0\",\"");
    mpz_set_mpECP_affine_x(z, q); sb_mpz(s, z); sb_str(s, "\",\"");
    mpz_set_mpECP_affine_y(z, q); sb_mpz(s, z); sb_str(s, "\"");
    mpz_clear(z); mpECP_clear(q);
}

// ---- object snapshots ------------------------------------------------------
static TLS sb_t chg;
static void changed(meta_t *m, char kind, int i, sb_t *now) {
    if (m->last && !strcmp(m->last, now->b)) return;
    free(m->last); m->last = strdup(now->b);
    if (chg.n) sb_str(&chg, ",");
    sb_fmt(&chg, "[\"%c%d\",", kind, i); sb_str(&chg, now->b); sb_str(&chg, "]");
}
static int brief;           // DRV_BRIEF: say only which objects exist (the memory checks)
static TLS int slot_lo, slot_hi = NH;   // the objects of this thread
static void snap_all(void) {
    static TLS sb_t s; int i;
    sb_reset(&chg);
    for (i = slot_lo; i < slot_hi; i++) {
#define SNAP(arr, m, ch, body) do { if (m[i].live || m[i].last) { sb_reset(&s); \
        if (!m[i].live) sb_str(&s, "\"gone\""); else if (brief) sb_str(&s, "\"live\""); else if (!m[i].valid) sb_str(&s, "\"un\""); \
        else { body } changed(&m[i], ch, i, &s); \
        if (!m[i].live) { free(m[i].last); m[i].last = NULL; } } } while (0)
        SNAP(F, mF, 'f', { sb_fmt(&s, "\"fe\",\"K%d\",\"", mod_key(F[i]->fp->p)); sb_fe(&s, F[i]); sb_str(&s, "\""); });
        SNAP(C, mC, 'c', { sb_fmt(&s, "\"cv\",\"K%d\"", curve_key(C[i])); });
        SNAP(P, mP, 'p', { sb_str(&s, "\"pt\","); sb_pt(&s, P[i]); });
        SNAP(S, mS, 's', { sb_fmt(&s, "\"sc\",\"K%d\",\"%d\"", curve_key(S[i]->cvp), (int)S[i]->H->hsz); });
        SNAP(G, mG, 'g', { sb_fmt(&s, "\"sg\",\"K%d\",\"%d\",\"", curve_key(G[i]->sscheme->cvp), (int)G[i]->sscheme->H->hsz); sb_fe(&s, G[i]->r);
                           sb_str(&s, "\",\""); sb_fe(&s, G[i]->s); sb_str(&s, "\""); });
        SNAP(E, mE, 'e', { sb_str(&s, "\"ct\","); sb_pt(&s, E[i]->C); sb_str(&s, ","); sb_pt(&s, E[i]->D); });
    }
}

// ---- arguments -------------------------------------------------------------
static int hidx(int a, char kind, int needlive) {
    if (a >= nt || tok[a][0] != kind) die("bad handle");
    int i = atoi(tok[a] + 1); if (i < 0 || i >= NH) die("handle range");
    (void)needlive; return i;
}
#define NEED(m, i) do { if (!m[i].live) die("dead handle"); } while (0)
#define NEEDV(m, i) do { if (!m[i].live || !m[i].valid) die("undefined handle"); } while (0)
static int aF(int a) { int i = hidx(a, 'f', 1); NEEDV(mF, i); return i; }   // operand
static int dF(int a) { int i = hidx(a, 'f', 1); NEED(mF, i); return i; }    // destination
static int aP(int a) { int i = hidx(a, 'p', 1); NEEDV(mP, i); return i; }
static int dP(int a) { int i = hidx(a, 'p', 1); NEED(mP, i); return i; }
static int aC(int a) { int i = hidx(a, 'c', 1); NEEDV(mC, i); return i; }
static int dC(int a) { int i = hidx(a, 'c', 1); NEED(mC, i); return i; }
static void zarg(mpz_t z, int a) { if (a >= nt || mpz_set_str(z, tok[a], 16) != 0) die("bad number"); }
static unsigned long uarg(int a) { if (a >= nt) die("missing arg"); return strtoul(tok[a], NULL, 16); }
static long iarg(int a) { if (a >= nt) die("missing arg"); return atol(tok[a]); }
static unsigned char *barg(int a, size_t *n) {      // hex bytes, "-" for none
    size_t l, i; unsigned char *b; unsigned v;
    if (a >= nt) die("missing bytes");
    if (!strcmp(tok[a], "-")) { *n = 0; return malloc(1); }
    l = strlen(tok[a]); if (l & 1) die("odd hex");
    b = malloc(l / 2 ? l / 2 : 1);                  // exact size: overreads are visible
    for (i = 0; i < l / 2; i++) { if (sscanf(tok[a] + 2 * i, "%2x", &v) != 1) die("bad hex"); b[i] = v; }
    *n = l / 2; return b;
}
static char *sarg(int a) {                           // text given as hex codes
    size_t n; unsigned char *b = barg(a, &n); char *s = malloc(n + 1); memcpy(s, b, n); s[n] = 0; free(b); return s;
}

// ---- hash functions: the message repeated cyclically over hsz bytes --------
#define HF(N) static void hash##N(unsigned char *h, unsigned char *m, size_t sz) { \
    size_t i; for (i = 0; i < N; i++) h[i] = m[i % sz]; }
HF(1) HF(2) HF(3) HF(4) HF(8) HF(16) HF(20) HF(21) HF(28) HF(32) HF(48) HF(64) HF(66) HF(72)
static _ecdsa_dohash hashfn(int n) {
    switch (n) { case 1: return hash1; case 2: return hash2; case 3: return hash3; case 4: return hash4; case 8: return hash8;
        case 16: return hash16; case 20: return hash20; case 21: return hash21; case 28: return hash28; case 32: return hash32;
        case 48: return hash48; case 64: return hash64; case 66: return hash66; case 72: return hash72; }
    die("hash size"); return NULL;
}

// ---- results ---------------------------------------------------------------
static TLS sb_t res;
static void r_sep(void) { if (res.n) sb_str(&res, ","); }
static void r_int(long v) { r_sep(); sb_fmt(&res, "\"%s%lx\"", v < 0 ? "-" : "", v < 0 ? -v : v); }
static void r_mpz(mpz_t z) { r_sep(); sb_str(&res, "\""); sb_mpz(&res, z); sb_str(&res, "\""); }
static void r_fe(mpFp_t f) { r_sep(); sb_str(&res, "\""); sb_fe(&res, f); sb_str(&res, "\""); }
static void r_hex(const unsigned char *b, size_t n) { size_t i; r_sep(); sb_str(&res, "\""); for (i = 0; i < n; i++) sb_fmt(&res, "%02x", b[i]); sb_str(&res, "\""); }
static void r_raw(const char *t) { r_sep(); sb_str(&res, "\""); sb_str(&res, t); sb_str(&res, "\""); }
static void r_idx(int v) { r_sep(); sb_fmt(&res, "%d", v); }

// ---- tables over all points of a small curve -------------------------------
#define TMAX 400
static int tn; static mpECP_t T[TMAX], TZ[TMAX]; static char *tlab[TMAX]; static int t_live; static int tc;
static char *plab(mpECP_t p) { static sb_t s; sb_reset(&s); sb_pt(&s, p); return strchr(s.b, ',') + 1; }
static void t_free(void) { int i; if (!t_live) return; for (i = 0; i < tn; i++) { mpECP_clear(T[i]); mpECP_clear(TZ[i]); free(tlab[i]); } t_live = 0; tn = 0; }
static int t_find(mpECP_t p) {
    char *l; int i;
    if (mpECurve_cmp(p->cvp, C[tc]) != 0) return -2;
    l = plab(p);
    for (i = 0; i < tn; i++) if (!strcmp(l, tlab[i])) return i + 1;
    return -1;
}
static void t_load(void) {     // tload c x y x y ...   ("inf inf" = neutral)
    int i; mpz_t x, y; mpz_init(x); mpz_init(y);
    t_free(); tc = aC(1); tn = (nt - 2) / 2; if (tn > TMAX) die("table");
    for (i = 0; i < tn; i++) {
        mpECP_init(T[i], C[tc]); mpECP_init(TZ[i], C[tc]);
        if (!strcmp(tok[2 + 2 * i], "inf")) mpECP_set_neutral(T[i], C[tc]);
        else { zarg(x, 2 + 2 * i); zarg(y, 3 + 2 * i); mpECP_set_mpz(T[i], x, y, C[tc]); }
        tlab[i] = strdup(plab(T[i]));
    }
    // a second, projective, representation of every point: (P + R) - R for a
    // varying R; if that does not return P the group law check itself reports it
    for (i = 0; i < tn; i++) {
        mpECP_add(TZ[i], T[i], T[(i * 7 + 3) % tn]);
        mpECP_sub(TZ[i], TZ[i], T[(i * 7 + 3) % tn]);
    }
    t_live = 1; mpz_clear(x); mpz_clear(y);
    for (i = 0; i < tn; i++) r_idx(t_find(TZ[i]));
}
static mpECP_ptr t_rep(int i, int rep) { return rep ? TZ[i] : T[i]; }

static void release_all(void) {
    int i;
    t_free();
    for (i = 0; i < NH; i++) {
        if (mE[i].live) { mpECElgamal_clear(E[i]); mE[i].live = 0; LEFT(E[i]); }
        if (mG[i].live) { mpECDSASignature_clear(G[i]); mG[i].live = 0; }
        if (mS[i].live) { mpECDSASignatureScheme_clear(S[i]); mS[i].live = 0; }
        if (mP[i].live) { mpECP_clear(P[i]); mP[i].live = 0; LEFT(P[i]); }
        if (mF[i].live) { mpFp_clear(F[i]); mF[i].live = 0; LEFT(F[i]); }
    }
    for (i = 0; i < NH; i++) if (mC[i].live) { mpECurve_clear(C[i]); mC[i].live = 0; LEFT(C[i]); }
}
#define OP(s) else if (!strcmp(op, s))
#ifdef WITH_MEM
static void secretz(mpz_t z) {
    size_t k; unsigned char b[1024];
    memset(b, 0, sizeof b);
    if (mpz_sizeinbase(z, 2) < 8000) { mpz_export(b, &k, -1, 1, -1, 0, z); mem_secret(b, (k + 7) / 8 * 8); }
}
static int mem_op(const char *op) {
    if (0) {}
    OP("hide") { mF[aF(1)].secret = 1; }      // from now on what this element holds is a secret
    OP("hidez") { mpz_t z; mpz_init(z); zarg(z, 1); secretz(z); mpz_clear(z); }
    OP("scr") {             // scr size size ...: one block of GMP's allocator through these sizes, filled each time; is the content kept?
        void *(*a)(size_t); void *(*r)(void *, size_t, size_t); void (*f)(void *, size_t); size_t n, m, k; unsigned char *b; int i, kept = 1;
        mp_get_memory_functions(&a, &r, &f);
        n = (size_t)iarg(1); b = a(n); memset(b, 0xC3, n);
        for (i = 2; i < nt; i++) {
            m = (size_t)iarg(i); b = r(b, n, m);
            for (k = 0; k < (m < n ? m : n); k++) if (b[k] != 0xC3) kept = 0;
            memset(b, 0xC3, m); n = m;
        }
        f(b, n); r_int(kept);
    }
    else return 0;
    return 1;
}
#endif
#ifdef WITH_RND
#include "drv_rnd.inc"
#endif

static void run(void) {
    const char *op = tok[0];
    int i, j, st; mpz_t z, y; unsigned long u;
    mpz_init(z); mpz_init(y);
    if (0) {}
    // ---------------- fields
    OP("finit")   { i = hidx(1, 'f', 0); if (mF[i].live) die("live"); zarg(z, 2); mpFp_init(F[i], z); mF[i].live = 1; mF[i].valid = 0; }
    OP("finitfp") { i = hidx(1, 'f', 0); if (mF[i].live) die("live"); zarg(z, 2); mpFp_init_fp(F[i], _mpFp_field_lookup(z)); mF[i].live = 1; mF[i].valid = 0; }
    OP("fclear")  { i = dF(1); mpFp_clear(F[i]); mF[i].live = 0; LEFT(F[i]); }
    OP("fsetz")   { i = dF(1); zarg(y, 2); zarg(z, 3); mpFp_set_mpz(F[i], z, y); mF[i].valid = 1; }
    OP("fsetzfp") { i = dF(1); zarg(y, 2); zarg(z, 3); mpFp_set_mpz_fp(F[i], z, _mpFp_field_lookup(y)); mF[i].valid = 1; }
    OP("fsetui")  { i = dF(1); zarg(y, 2); u = uarg(3); mpFp_set_ui(F[i], u, y); mF[i].valid = 1; }
    OP("fsetuifp"){ i = dF(1); zarg(y, 2); u = uarg(3); mpFp_set_ui_fp(F[i], u, _mpFp_field_lookup(y)); mF[i].valid = 1; }
    OP("fset")    { i = dF(1); mpFp_set(F[i], F[aF(2)]); mF[i].valid = 1; }
    OP("fadd")    { i = dF(1); mpFp_add(F[i], F[aF(2)], F[aF(3)]); mF[i].valid = 1; }
    OP("fsub")    { i = dF(1); mpFp_sub(F[i], F[aF(2)], F[aF(3)]); mF[i].valid = 1; }
    OP("fmul")    { i = dF(1); mpFp_mul(F[i], F[aF(2)], F[aF(3)]); mF[i].valid = 1; }
    OP("faddui")  { i = dF(1); mpFp_add_ui(F[i], F[aF(2)], uarg(3)); mF[i].valid = 1; }
    OP("fsubui")  { i = dF(1); mpFp_sub_ui(F[i], F[aF(2)], uarg(3)); mF[i].valid = 1; }
    OP("fmului")  { i = dF(1); mpFp_mul_ui(F[i], F[aF(2)], uarg(3)); mF[i].valid = 1; }
    OP("fsqr")    { i = dF(1); mpFp_sqr(F[i], F[aF(2)]); mF[i].valid = 1; }
    OP("fneg")    { i = dF(1); mpFp_neg(F[i], F[aF(2)]); mF[i].valid = 1; }
    OP("fpow")    { i = dF(1); zarg(z, 3); mpFp_pow_mpz(F[i], F[aF(2)], z); mF[i].valid = 1; }
    OP("fpowui")  { i = dF(1); mpFp_pow_ui(F[i], F[aF(2)], uarg(3)); mF[i].valid = 1; }
    OP("finv")    { i = dF(1); j = aF(2); st = mpFp_inv(F[i], F[j]); r_int(st != 0); mF[i].valid = st == 0; (void)j; }
    OP("fsqrt")   { i = dF(1); j = aF(2); st = mpFp_sqrt(F[i], F[j]); r_int(st != 0); mF[i].valid = st == 0; }
    OP("fcmp")    { st = mpFp_cmp(F[aF(1)], F[aF(2)]); r_int(st < 0 ? -1 : st > 0); }
    OP("fcmpui")  { st = mpFp_cmp_ui(F[aF(1)], uarg(2)); r_int(st != 0); }
    OP("fcmpz")   { zarg(z, 2); st = mpFp_cmp_mpz(F[aF(1)], z); r_int(st != 0); }
    OP("ftst")    { r_int(mpFp_tstbit(F[aF(1)], (int)iarg(2)) != 0); }
    OP("fswap")   { mpFp_swap(F[aF(1)], F[aF(2)]); }
    OP("fcswap")  { mpFp_cswap(F[aF(1)], F[aF(2)], (int)iarg(3)); }
    OP("fget")    { zarg(z, 2); mpz_set_mpFp(z, F[aF(1)]); r_mpz(z); }
    OP("frand")   { i = dF(1); zarg(y, 2); mpFp_urandom(F[i], y); mF[i].valid = 1; }
    OP("fsame")   { zarg(y, 2); r_int(F[aF(1)]->fp == _mpFp_field_lookup(y)); }
#ifdef THREADED
    OP("held")    { r_int(rnd_held()); }       // held N: open sources of randomness; N of them after the calls one after the other
#endif
    OP("zrand")   { zarg(y, 1); mpz_set_si(z, -77); mpz_urandom(z, y); r_mpz(z); }
    // ---------------- curves
    OP("cinit")   { i = hidx(1, 'c', 0); if (mC[i].live) die("live"); mpECurve_init(C[i]); mC[i].live = 1; mC[i].valid = 0; }
    OP("cclear")  { i = dC(1); mpECurve_clear(C[i]); mC[i].live = 0; LEFT(C[i]); }
    OP("cset")    { i = dC(1); mpECurve_set(C[i], C[aC(2)]); mC[i].valid = 1; }
    OP("cdef") {   // cdef c how type p a b n h gx gy bits   (how: z | x (0x strings) | d (decimal strings))
        mpz_t v[7]; char *s[7]; const char *t; char how; unsigned bits;
        i = dC(1); how = tok[2][0]; t = tok[3]; bits = (unsigned)iarg(11);
        for (j = 0; j < 7; j++) { mpz_init(v[j]); zarg(v[j], 4 + j); s[j] = NULL;
            if (how != 'z') { gmp_asprintf(&s[j], how == 'x' ? "%#Zx" : "%Zd", v[j]); } }
        st = -99;
        if (how == 'z') {
            if (!strcmp(t, "ws")) st = mpECurve_set_mpz_ws(C[i], v[0], v[1], v[2], v[3], v[4], v[5], v[6], bits);
            if (!strcmp(t, "ed")) st = mpECurve_set_mpz_ed(C[i], v[0], v[1], v[2], v[3], v[4], v[5], v[6], bits);
            if (!strcmp(t, "mo")) st = mpECurve_set_mpz_mo(C[i], v[0], v[1], v[2], v[3], v[4], v[5], v[6], bits);
            if (!strcmp(t, "te")) st = mpECurve_set_mpz_te(C[i], v[0], v[1], v[2], v[3], v[4], v[5], v[6], bits);
        } else {
            if (!strcmp(t, "ws")) st = mpECurve_set_str_ws(C[i], s[0], s[1], s[2], s[3], s[4], s[5], s[6], bits);
            if (!strcmp(t, "ed")) st = mpECurve_set_str_ed(C[i], s[0], s[1], s[2], s[3], s[4], s[5], s[6], bits);
            if (!strcmp(t, "mo")) st = mpECurve_set_str_mo(C[i], s[0], s[1], s[2], s[3], s[4], s[5], s[6], bits);
            if (!strcmp(t, "te")) st = mpECurve_set_str_te(C[i], s[0], s[1], s[2], s[3], s[4], s[5], s[6], bits);
        }
        for (j = 0; j < 7; j++) { mpz_clear(v[j]); free(s[j]); }
        r_int(st != 0); mC[i].valid = st == 0;
    }
    OP("cnamed")  { char *n = sarg(2); i = dC(1); st = mpECurve_set_named(C[i], n); free(n); r_int(st != 0); if (st == 0) mC[i].valid = 1; }
    OP("ccheck")  { zarg(z, 2); zarg(y, 3); r_int(mpECurve_point_check(C[aC(1)], z, y) != 0); }
    OP("ccmp")    { r_int(mpECurve_cmp(C[aC(1)], C[aC(2)]) != 0); }
    OP("clist")   { char **l = _mpECurve_list_standard_curves(); for (i = 0; l[i]; i++) { r_raw(l[i]); free(l[i]); } free(l); }
    // ---------------- points
    OP("pinit")   { i = hidx(1, 'p', 0); if (mP[i].live) die("live"); mpECP_init(P[i], C[aC(2)]); mP[i].live = 1; mP[i].valid = 0; }
    OP("pclear")  { i = dP(1); mpECP_clear(P[i]); mP[i].live = 0; LEFT(P[i]); }
    OP("pset")    { i = dP(1); mpECP_set(P[i], P[aP(2)]); mP[i].valid = 1; }
    OP("psetz")   { i = dP(1); zarg(z, 2); zarg(y, 3); mpECP_set_mpz(P[i], z, y, C[aC(4)]); mP[i].valid = 1; }
    OP("psetf")   { i = dP(1); mpECP_set_mpFp(P[i], F[aF(2)], F[aF(3)], C[aC(4)]); mP[i].valid = 1; }
    OP("pneut")   { i = dP(1); mpECP_set_neutral(P[i], C[aC(2)]); mP[i].valid = 1; }
    OP("padd")    { i = dP(1); mpECP_add(P[i], P[aP(2)], P[aP(3)]); mP[i].valid = 1; }
    OP("psub")    { i = dP(1); mpECP_sub(P[i], P[aP(2)], P[aP(3)]); mP[i].valid = 1; }
    OP("pdbl")    { i = dP(1); mpECP_double(P[i], P[aP(2)]); mP[i].valid = 1; }
    OP("pneg")    { i = dP(1); mpECP_neg(P[i], P[aP(2)]); mP[i].valid = 1; }
    OP("pmul")    { i = dP(1); mpECP_scalar_mul(P[i], P[aP(2)], F[aF(3)]); mP[i].valid = 1; }
    OP("pmulz")   { i = dP(1); zarg(z, 3); mpECP_scalar_mul_mpz(P[i], P[aP(2)], z); mP[i].valid = 1; }
    OP("pbset")   { i = aP(1); mpECP_scalar_base_mul_setup(P[i]); }
    OP("pbmul")   { i = dP(1); mpECP_scalar_base_mul(P[i], P[aP(2)], F[aF(3)]); mP[i].valid = 1; }
    OP("pbmulz")  { i = dP(1); zarg(z, 3); mpECP_scalar_base_mul_mpz(P[i], P[aP(2)], z); mP[i].valid = 1; }
    OP("pcmp")    { r_int(mpECP_cmp(P[aP(1)], P[aP(2)]) != 0); }
    OP("pswap")   { mpECP_swap(P[aP(1)], P[aP(2)]); }
    OP("pcswap")  { mpECP_cswap(P[aP(1)], P[aP(2)], (int)iarg(3)); }
    OP("pgetf")   { mpFp_t a, b; i = aP(1); zarg(z, 2);     // into elements of another field
                    mpFp_init(a, z); mpFp_init(b, z);
                    mpFp_set_mpECP_affine_x(a, P[i]); mpFp_set_mpECP_affine_y(b, P[i]);
                    r_mpz(a->fp->p); r_fe(a); r_mpz(b->fp->p); r_fe(b); mpFp_clear(a); mpFp_clear(b); }
    OP("pgetz")   { i = aP(1); mpz_set_si(z, -5); mpz_set_mpECP_affine_x(z, P[i]); mpz_set_mpECP_affine_y(y, P[i]); r_mpz(z); r_mpz(y); }
    OP("penc")    { // penc p compress bin|str
        int comp = (int)iarg(2); i = aP(1);
        if (!strcmp(tok[3], "bin")) { int l = mpECP_out_bytelen(P[i], comp); unsigned char *b = malloc(l);
            memset(b, 0xA5, l); mpECP_out_bytes(b, P[i], comp); r_int(l); r_hex(b, l); free(b); }
        else { int l = mpECP_out_strlen(P[i], comp); char *b = malloc(l + 1);
            memset(b, 'Z', l + 1); mpECP_out_str(b, P[i], comp); r_int(l); r_int((long)strlen(b)); r_raw(b); free(b); }
    }
    OP("pdec")    { size_t n; unsigned char *b = barg(2, &n); i = dP(1); st = mpECP_set_bytes(P[i], b, n, C[aC(3)]); free(b);
                    r_int(st != 0); if (st == 0) mP[i].valid = 1; }
    OP("pdecs")   { char *s = sarg(2); i = dP(1); st = mpECP_set_str(P[i], s, C[aC(3)]); free(s); r_int(st != 0); if (st == 0) mP[i].valid = 1; }
    OP("prand")   { i = dP(1); mpECP_urandom(P[i], C[aC(2)]); mP[i].valid = 1; }
    // ---------------- ECDSA
    OP("sch")     { mpECDSAHashfunc_t H; i = hidx(1, 's', 0); if (mS[i].live) die("live"); mpECDSAHashfunc_init(H); H->hsz = iarg(3); H->dohash = hashfn((int)H->hsz);
                    st = mpECDSASignatureScheme_init(S[i], C[aC(2)], H); mpECDSAHashfunc_clear(H); r_int(st != 0); mS[i].live = 1; mS[i].valid = st == 0; }
    OP("schclear"){ i = hidx(1, 's', 0); NEED(mS, i); mpECDSASignatureScheme_clear(S[i]); mS[i].live = 0; LEFT(S[i]->cv_G); }
    OP("sign")    { size_t n; unsigned char *b = barg(4, &n); i = hidx(1, 'g', 0); if (mG[i].live) die("live"); j = hidx(2, 's', 0); NEEDV(mS, j);
                    st = mpECDSASignature_init_Sign(G[i], S[j], F[aF(3)], b, n); free(b); r_int(st != 0); if (st == 0) mG[i].live = mG[i].valid = 1; }
    OP("verify")  { size_t n; unsigned char *b = barg(3, &n); i = hidx(1, 'g', 0); NEEDV(mG, i);
                    st = mpECDSASignature_verify_cmp(G[i], P[aP(2)], b, n); free(b); r_int(st != 0); }
    OP("sexp")    { size_t n; unsigned char *b; i = hidx(1, 'g', 0); NEEDV(mG, i); b = mpECDSASignature_export_bytes(G[i], &n); r_hex(b, n); free(b); }
    OP("sexps")   { char *b; i = hidx(1, 'g', 0); NEEDV(mG, i); b = mpECDSASignature_export_str(G[i]); r_raw(b); free(b); }
    OP("simp")    { size_t n; unsigned char *b = barg(3, &n); i = hidx(1, 'g', 0); if (mG[i].live) die("live"); j = hidx(2, 's', 0); NEEDV(mS, j);
                    st = mpECDSASignature_init_import_bytes(G[i], S[j], b, n); free(b); r_int(st != 0); if (st == 0) mG[i].live = mG[i].valid = 1; }
    OP("simps")   { char *b = sarg(3); i = hidx(1, 'g', 0); if (mG[i].live) die("live"); j = hidx(2, 's', 0); NEEDV(mS, j);
                    st = mpECDSASignature_init_import_str(G[i], S[j], b); free(b); r_int(st != 0); if (st == 0) mG[i].live = mG[i].valid = 1; }
    OP("sigclear"){ i = hidx(1, 'g', 0); NEED(mG, i); mpECDSASignature_clear(G[i]); mG[i].live = 0; LEFT(G[i]->r); LEFT(G[i]->s); }
    // ---------------- ElGamal
    OP("enc")     { i = hidx(1, 'e', 0); if (mE[i].live) die("live"); st = mpECElgamal_init_encrypt(E[i], P[aP(2)], P[aP(3)]); r_int(st != 0); if (st == 0) mE[i].live = mE[i].valid = 1; }
    OP("ctmake")  { i = hidx(1, 'e', 0); if (mE[i].live) die("live"); int a = aP(2), b = aP(3);
                    mpECP_init(E[i]->C, P[a]->cvp); mpECP_init(E[i]->D, P[b]->cvp); mpECP_set(E[i]->C, P[a]); mpECP_set(E[i]->D, P[b]); mE[i].live = mE[i].valid = 1; }
    OP("dec")     { i = hidx(1, 'p', 0); if (mP[i].live) die("live"); j = hidx(3, 'e', 0); NEEDV(mE, j);
                    st = mpECElgamal_init_decrypt(P[i], F[aF(2)], E[j]); r_int(st != 0); if (st == 0) mP[i].live = mP[i].valid = 1; }
    OP("ctclear") { i = hidx(1, 'e', 0); NEED(mE, i); mpECElgamal_clear(E[i]); mE[i].live = 0; LEFT(E[i]->C); LEFT(E[i]->D); }
    // ---------------- tables (results are indices into the loaded point list)
    OP("tload")   { t_load(); }
    OP("tfree")   { t_free(); }
    OP("tadd") {   // tadd op rep1 rep2 alias      alias: 0 fresh destination, 1 = first operand, 2 = second
        int r1 = iarg(2), r2 = iarg(3), al = iarg(4); int sub = !strcmp(tok[1], "sub");
        mpECP_t a, b, d; mpECP_init(a, C[tc]); mpECP_init(b, C[tc]); mpECP_init(d, C[tc]);
        for (i = 0; i < tn; i++) for (j = 0; j < tn; j++) {
            mpECP_ptr dd = al == 0 ? d : al == 1 ? a : b;
            mpECP_set(a, t_rep(i, r1)); mpECP_set(b, t_rep(j, r2));
            if (sub) mpECP_sub(dd, a, b); else mpECP_add(dd, a, b);
            r_idx(t_find(dd));
        }
        mpECP_clear(a); mpECP_clear(b); mpECP_clear(d);
    }
    OP("tun") {    // tun dbl|neg rep alias(0 fresh,1 same)
        int r1 = iarg(2), al = iarg(3); int neg = !strcmp(tok[1], "neg");
        mpECP_t a, d; mpECP_init(a, C[tc]); mpECP_init(d, C[tc]);
        for (i = 0; i < tn; i++) { mpECP_ptr dd = al ? a : d; mpECP_set(a, t_rep(i, r1));
            if (neg) mpECP_neg(dd, a); else mpECP_double(dd, a);
            r_idx(t_find(dd)); }
        mpECP_clear(a); mpECP_clear(d);
    }
    OP("tself") {  // same object as both operands: P+P, P-P with fresh / same destination
        int al = iarg(2); int sub = !strcmp(tok[1], "sub");
        mpECP_t a, d; mpECP_init(a, C[tc]); mpECP_init(d, C[tc]);
        for (i = 0; i < tn; i++) { mpECP_ptr dd = al ? a : d; mpECP_set(a, t_rep(i, 1));
            if (sub) mpECP_sub(dd, a, a); else mpECP_add(dd, a, a);
            r_idx(t_find(dd)); }
        mpECP_clear(a); mpECP_clear(d);
    }
    OP("tcmp") {   // tcmp rep1 rep2
        int r1 = iarg(1), r2 = iarg(2);
        for (i = 0; i < tn; i++) for (j = 0; j < tn; j++) r_idx(mpECP_cmp(t_rep(i, r1), t_rep(j, r2)) == 0);
    }
    OP("tmul") {   // tmul how rep alias    every point times every scalar 0..n-1; how: m (element) z (integer) b (tables) c (tables, integer)
        char how = tok[1][0]; int r1 = iarg(2), al = iarg(3); unsigned long k, n = mpz_get_ui(C[tc]->n);
        for (i = 0; i < tn; i++) {
            mpECP_t a, d; mpFp_t s; mpECP_init(a, C[tc]); mpECP_init(d, C[tc]); mpFp_init(s, C[tc]->n);
            mpECP_set(a, t_rep(i, r1));
            for (k = 0; k < n; k++) {
                mpECP_ptr dd = al ? a : d;
                if (al) mpECP_set(a, t_rep(i, r1));
                mpz_set_ui(z, k); mpFp_set_mpz(s, z, C[tc]->n);
                if (how == 'm') mpECP_scalar_mul(dd, a, s);
                else if (how == 'z') mpECP_scalar_mul_mpz(dd, a, z);
                else if (how == 'b') mpECP_scalar_base_mul(dd, a, s);
                else mpECP_scalar_base_mul_mpz(dd, a, z);
                r_idx(t_find(dd));
            }
            mpECP_clear(a); mpECP_clear(d); mpFp_clear(s);
        }
    }
    OP("tenc") {   // tenc compress rep
        int comp = iarg(1), r1 = iarg(2);
        for (i = 0; i < tn; i++) { mpECP_t a; int l; unsigned char b[600]; mpECP_init(a, C[tc]); mpECP_set(a, t_rep(i, r1));
            l = mpECP_out_bytelen(a, comp); memset(b, 0xA5, sizeof b); mpECP_out_bytes(b, a, comp); r_hex(b, l); mpECP_clear(a); }
    }
    OP("tdec") {   // tdec len [first bytes...]: every byte string of that length starting with one of the given bytes;
                   // logs the accepted ones with the index of the decoded point
        int len = iarg(1), nf = nt - 2; unsigned char b[8]; unsigned long cnt, tot = 1;
        mpECP_t d; if (len > 4) die("tdec"); mpECP_init(d, C[tc]); mpECP_set(d, T[0]);
        for (i = 1; i < len; i++) tot *= 256;
        for (j = 0; j < nf; j++) for (cnt = 0; cnt < tot; cnt++) {
            unsigned long v = cnt; unsigned char *x;
            b[0] = uarg(2 + j); for (i = len - 1; i >= 1; i--) { b[i] = v & 255; v >>= 8; }
            x = malloc(len); memcpy(x, b, len); st = mpECP_set_bytes(d, x, len, C[tc]); free(x);
            if (st == 0) { r_sep(); sb_str(&res, "["); for (i = 0; i < len; i++) sb_fmt(&res, "%d,", b[i]); sb_fmt(&res, "%d]", t_find(d)); }
        }
        mpECP_clear(d);
    }
    OP("tver") {   // tver hsz msghex: for scheme curve: every public key in the table, every (r,s) in 1..n-1: accepted triples
        mpECDSASignatureScheme_t sc; mpECDSAHashfunc_t H; size_t ml; unsigned char *m = barg(2, &ml); unsigned long r, s, n = mpz_get_ui(C[tc]->n); size_t w;
        H->hsz = iarg(1); H->dohash = hashfn((int)H->hsz); mpECDSASignatureScheme_init(sc, C[tc], H); w = (mpz_sizeinbase(C[tc]->n, 2) + 7) / 8;
        for (i = 0; i < tn; i++) for (r = 1; r < n; r++) for (s = 1; s < n; s++) {
            mpECDSASignature_t g; unsigned char b[16]; size_t k; for (k = 0; k < w; k++) { b[w - 1 - k] = r >> (8 * k); b[2 * w - 1 - k] = s >> (8 * k); }
            if (mpECDSASignature_init_import_bytes(g, sc, b, 2 * w) != 0) { r_sep(); sb_str(&res, "[-1,-1,-1]"); continue; }
            if (mpECDSASignature_verify_cmp(g, t_rep(i, (r + s) & 1), m, ml) == 0) { r_sep(); sb_fmt(&res, "[%d,%lu,%lu]", i + 1, r, s); }
            mpECDSASignature_clear(g);
        }
        free(m); mpECDSASignatureScheme_clear(sc);
    }
    OP("timp") {   // timp len: every byte string of that length as a signature for the curve's order: the accepted ones as [r,s]
        mpECDSASignatureScheme_t sc; mpECDSAHashfunc_t H; int len = iarg(1); unsigned long cnt, tot = 1; unsigned char b[8];
        if (len > 3) die("timp");
        H->hsz = 1; H->dohash = hash1; mpECDSASignatureScheme_init(sc, C[tc], H);
        for (i = 0; i < len; i++) tot *= 256;
        for (cnt = 0; cnt < tot; cnt++) { mpECDSASignature_t g; unsigned long v = cnt; unsigned char *x;
            for (i = len - 1; i >= 0; i--) { b[i] = v & 255; v >>= 8; }
            x = malloc(len + 1); memcpy(x, b, len);
            if (mpECDSASignature_init_import_bytes(g, sc, x, len) == 0) {
                r_sep(); sb_str(&res, "["); for (i = 0; i < len; i++) sb_fmt(&res, "%d,", b[i]);
                mpz_set_mpFp(z, g->r); mpz_set_mpFp(y, g->s); sb_fmt(&res, "%lu,%lu]", mpz_get_ui(z), mpz_get_ui(y)); mpECDSASignature_clear(g); }
            free(x); }
        mpECDSASignatureScheme_clear(sc);
    }
    OP("ttab") {   // ttab c op: whole tables of a small field: op in add sub mul inv sqrt sqr neg
        mpFp_t a, b, d; unsigned long p; int k; zarg(y, 1); p = mpz_get_ui(y); const char *o = tok[2]; int al = iarg(3);
        mpFp_init(a, y); mpFp_init(b, y); mpFp_init(d, y);
        for (i = 0; i < (int)p; i++) {
            int un = !strcmp(o, "inv") || !strcmp(o, "sqrt") || !strcmp(o, "sqr") || !strcmp(o, "neg");
            for (j = 0; j < (un ? 1 : (int)p); j++) {
                mpFp_ptr dd = al == 1 ? a : al == 2 ? b : d;
                mpFp_set_ui(a, i, y); mpFp_set_ui(b, j, y); k = 0;
                if (!strcmp(o, "add")) mpFp_add(dd, a, b); else if (!strcmp(o, "sub")) mpFp_sub(dd, a, b);
                else if (!strcmp(o, "mul")) mpFp_mul(dd, a, b); else if (!strcmp(o, "addui")) mpFp_add_ui(dd, a, j);
                else if (!strcmp(o, "subui")) mpFp_sub_ui(dd, a, j); else if (!strcmp(o, "mului")) mpFp_mul_ui(dd, a, j);
                else if (!strcmp(o, "powui")) mpFp_pow_ui(dd, a, j);
                else if (!strcmp(o, "cmp")) { int q = mpFp_cmp(a, b); r_idx(q < 0 ? -1 : q > 0); continue; }
                else if (!strcmp(o, "inv")) k = mpFp_inv(dd, a); else if (!strcmp(o, "sqrt")) k = mpFp_sqrt(dd, a);
                else if (!strcmp(o, "sqr")) mpFp_sqr(dd, a); else if (!strcmp(o, "neg")) mpFp_neg(dd, a); else die("ttab");
                if (k) r_idx(-1); else { mpz_set_mpFp(z, dd); r_idx((int)mpz_get_ui(z)); }
            }
        }
        mpFp_clear(a); mpFp_clear(b); mpFp_clear(d);
    }
#ifdef WITH_RND
    else if (rnd_op(op)) {}
#endif
#ifdef WITH_MEM
    else if (mem_op(op)) {}
#endif
    OP("mark") {}           // a point where the script holds no object
    OP("sweep") release_all();
    else die("unknown op");
    mpz_clear(z); mpz_clear(y);
}

// one command of the script; the event is left in `ev`
static int step(char *line, unsigned tmo, sb_t *ev) {
    int i; char *t, *sp;
    nt = 0;
    for (t = strtok_r(line, " \t\r\n", &sp); t && nt < MAXTOK; t = strtok_r(NULL, " \t\r\n", &sp)) tok[nt++] = t;
    if (nt == 0 || tok[0][0] == '#') return 0;
    sb_reset(&res); knew_from = nk;
    if (tmo) alarm(tmo);
#ifdef WITH_MEM
    residue = 0; mem_call(1);
    run();
    for (i = 0; i < NH; i++) {
        if (!mF[i].live) mF[i].secret = 0;
        else if (mF[i].secret && mF[i].valid) { mpz_t z; mpz_init(z); mpz_set_mpFp(z, F[i]); secretz(z); mpz_clear(z); }
    }
    snap_all();
    mem_t mm; mem_report(&mm, !strcmp(tok[0], "sweep") || !strcmp(tok[0], "mark")); mem_call(0);
#else
    run();
    snap_all();
#endif
    if (tmo) alarm(0);
    sb_reset(ev);
    sb_fmt(ev, "{\"op\":\"%s\",\"a\":[", tok[0]);
    for (i = 1; i < nt; i++) { if (brief && (i > 6 || strlen(tok[i]) > 40)) break; if (i > 1) sb_str(ev, ","); sb_str(ev, "\""); sb_str(ev, tok[i]); sb_str(ev, "\""); }
    sb_str(ev, "],\"r\":["); sb_str(ev, res.n && (!brief || res.n < 8) ? res.b : "");
    sb_str(ev, "],\"c\":["); sb_str(ev, chg.n ? chg.b : "");
    sb_str(ev, "],\"k\":[");
    for (i = knew_from; !brief && i < nk; i++) { if (i > knew_from) sb_str(ev, ","); sb_fmt(ev, "[\"K%d\",", kid(i)); sb_str(ev, ktab[i]); sb_str(ev, "]"); }
#ifdef WITH_MEM
    sb_fmt(ev, "],\"m\":[%lu,%lu,%lu,%lu,%lu,%lu,%lu,%lu,%lu", mm.live, mm.bytes, mm.gmplive, mm.freed, mm.gmpfreed, mm.dirty, mm.exposed, mm.torn, residue);
#endif
    sb_str(ev, "]}\n");
    return 1;
}

#ifndef THREADED
int main(int argc, char **argv) {
    char *line = NULL; size_t cap = 0; ssize_t l; int i; sb_t ev = {0};
    unsigned tmo = argc > 1 ? (unsigned)atoi(argv[1]) : 30;
    out = stdout; brief = getenv("DRV_BRIEF") != NULL;
#ifdef WITH_RND
    if (argc > 1 && !strcmp(argv[1], "--fault")) return rnd_fault(argc, argv);
    drv_self = argv[0];
#endif
    if (getenv("DRV_SAFECLEAN")) _enable_gmp_safe_clean();
#ifdef WITH_MEM
    mem_start();
#endif
    while ((l = getline(&line, &cap, stdin)) >= 0)
        if (step(line, tmo, &ev)) { fwrite(ev.b, 1, ev.n, out); fflush(out); }
    release_all();
    for (i = 0; i < NH; i++) { free(mF[i].last); free(mC[i].last); free(mP[i].last); free(mS[i].last); free(mG[i].last); free(mE[i].last); }
    for (i = 0; i < nk; i++) free(ktab[i]);
    free(ktab); free(line); free(ev.b); free(res.b); free(chg.b);
    return 0;
}
#endif

// Operations on the source of randomness (included by drv.c with -DWITH_RND).
#include "rnd.h"
#include <sys/wait.h>
static const char *drv_self;

// one operation that draws randomness, in a fresh process whose source fails:
//   --fault kind k what arg n      kind: missing | eof | err | chunk | ok
// prints every value obtained, one per line
static int rnd_fault(int argc, char **argv) {
    const char *kind = argv[2], *what = argv[4], *arg = argv[5]; long k = atol(argv[3]); int i, n = atoi(argv[6]);
    mpz_t z, b; mpFp_t f; mpECurve_t c; mpECP_t p, q; mpECDSASignatureScheme_t s; mpECDSAHashfunc_t H;
    (void)argc;
    alarm(8);
    mpz_init(z); mpz_init(b);
    rnd_prng(4711);
    if (!strcmp(kind, "missing")) rnd_missing();
    if (!strcmp(kind, "eof")) rnd_limit(k, 0);
    if (!strcmp(kind, "err")) rnd_limit(k, 1);
    if (!strcmp(kind, "chunk")) rnd_chunk(k);
    if (what[0] == 'z' || what[0] == 'f') { mpz_set_str(b, arg, 16); if (what[0] == 'f') mpFp_init(f, b); }
    else { mpECurve_init(c); if (mpECurve_set_named(c, (char *)arg)) return 9; mpECP_init(p, c); mpECP_init(q, c); mpECP_set_mpz(q, c->G[0], c->G[1], c);
        mpFp_init(f, c->n); mpFp_set_ui(f, 12345, c->n);
        H->hsz = 20; H->dohash = hash20; mpECDSASignatureScheme_init(s, c, H); }
    for (i = 0; i < n; i++) {
        if (what[0] == 'z') mpz_urandom(z, b);
        else if (what[0] == 'f') { mpFp_urandom(f, b); mpz_set_mpFp(z, f); }
        else if (what[0] == 'p') { mpECP_urandom(p, c); if (p->is_neutral) mpz_set_si(z, -1); else mpz_set_mpECP_affine_x(z, p); }
        else if (what[0] == 's') { mpECDSASignature_t g; int r = mpECDSASignature_init_Sign(g, s, f, (unsigned char *)"abc", 3); if (r != 0) { printf("failed\n"); fflush(stdout); continue; }
            mpz_set_mpFp(z, g->r); mpECDSASignature_clear(g); }
        else if (what[0] == 'e') { mpECElgamalCiphertext_t e; int r = mpECElgamal_init_encrypt(e, q, q); if (r != 0) { printf("failed\n"); fflush(stdout); continue; }
            if (e->C->is_neutral) mpz_set_si(z, -1); else mpz_set_mpECP_affine_x(z, e->C); mpECElgamal_clear(e); }
        gmp_printf("%Zx\n", z); fflush(stdout);
    }
    return 0;
}

static char *zhex(mpz_t z) { return mpz_get_str(NULL, 16, z); }

static void run_fault(void) {     // zfault kind k what arg n
    int pp[2]; pid_t pid; int st, i; char *line = NULL; size_t cap = 0; ssize_t l; FILE *f;
    if (pipe(pp)) die("pipe");
    fflush(out);
    pid = fork();
    if (pid == 0) {
        char *av[8]; av[0] = (char *)drv_self; av[1] = "--fault"; for (i = 0; i < 5; i++) av[2 + i] = tok[1 + i]; av[7] = NULL;
        dup2(pp[1], 1); close(pp[0]); close(pp[1]);
        if (!freopen("/dev/null", "w", stderr)) _exit(97);
        execv("/proc/self/exe", av); _exit(98);
    }
    close(pp[1]);
    f = fdopen(pp[0], "r");
    r_raw("?");
    while ((l = getline(&line, &cap, f)) >= 0) { if (l && line[l - 1] == '\n') line[l - 1] = 0; r_raw(line); }
    free(line); fclose(f);
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 9 || WEXITSTATUS(st) >= 97)) die("fault child");
    res.b[1] = (WIFEXITED(st) && WEXITSTATUS(st) == 0) ? 'k' : 's';     // ran to the end, or stopped before
}

static int rnd_op(const char *op) {
    mpz_t z, b; int i, j, n; unsigned long c0, c;
    mpz_init(z); mpz_init(b);
    if (0) {}
    OP("rsrc") {      // rsrc real | prng seed | hex seed bytes
        if (!strcmp(tok[1], "real")) rnd_real();
        else { rnd_prng(uarg(2)); if (!strcmp(tok[1], "hex")) { size_t l; unsigned char *p = barg(3, &l); rnd_prefix(p, l); free(p); } }
    }
    OP("zstat") {     // zstat z|f bound count seed: independent draws; fewest and most bytes of one draw, values
        mpFp_t f; unsigned long mn = ~0ul, mx = 0; sb_t v = {0}; char *h;
        zarg(b, 2); n = (int)iarg(3); rnd_prng(uarg(4)); sb_reset(&v);
        if (tok[1][0] == 'f') mpFp_init(f, b);
        for (i = 0; i < n; i++) {
            c0 = rnd_total();
            if (tok[1][0] == 'f') { mpFp_urandom(f, b); mpz_set_mpFp(z, f); } else { mpz_set_si(z, -7 - i); mpz_urandom(z, b); }
            c = rnd_total() - c0; if (c < mn) mn = c; if (c > mx) mx = c;
            h = zhex(z); sb_fmt(&v, ",\""); sb_str(&v, h); sb_str(&v, "\""); free(h);
        }
        if (tok[1][0] == 'f') mpFp_clear(f);
        r_int((long)mn); r_int((long)mx); sb_str(&res, v.b); free(v.b);
        rnd_real();
    }
    OP("zhist") {     // zhist bound w: how often each value is drawn over all 2^(8w) beginnings of the stream
        unsigned long *h, tot = 1, k; unsigned char s[4]; int w = (int)iarg(2); unsigned long bb;
        zarg(b, 1); bb = mpz_get_ui(b); h = calloc(bb + 1, sizeof *h);
        for (i = 0; i < w; i++) tot *= 256;
        for (k = 0; k < tot; k++) {
            for (i = 0; i < w; i++) s[i] = (unsigned char)(k >> (8 * i));
            rnd_prng(k + 77); rnd_prefix(s, w); mpz_urandom(z, b);
            h[mpz_sgn(z) >= 0 && mpz_cmp_ui(z, bb) < 0 ? mpz_get_ui(z) : bb]++;
        }
        for (i = 0; i <= (int)bb; i++) r_idx((int)h[i]);
        free(h); rnd_real();
    }
    OP("zflip") {     // zflip bound seed chunk: bytes one draw takes (over 64 streams: least, most), and how many of them matter
        int pp[2]; pid_t pid; int st; unsigned long m[4] = {~0ul, 0, 0, 0}; ssize_t got; size_t ch = (size_t)iarg(3); unsigned long seed = uarg(2);
        zarg(b, 1);
        if (pipe(pp)) die("pipe");
        fflush(out);
        pid = fork();
        if (pid == 0) {
            static const unsigned char mask[4] = {0x01, 0x80, 0xff, 0x5a}; mpz_t y; mpz_init(y);
            if (ch && !freopen("/dev/null", "w", stderr)) _exit(97);
            for (i = 0; i < 65; i++) {
                rnd_prng(seed + 1 + (unsigned long)(64 - i)); rnd_chunk(ch); c0 = rnd_total(); mpz_urandom(z, b); c = rnd_total() - c0;
                if (c < m[0]) m[0] = c;
                if (c > m[1]) m[1] = c;
            }
            m[2] = c;       // of the last one, seed + 1
            for (i = 0; i < (int)c; i++) for (j = 0; j < 4; j++) {
                rnd_prng(seed + 1); rnd_chunk(ch); rnd_flip(i, mask[j]); mpz_urandom(y, b);
                if (mpz_cmp(y, z) != 0) { m[3]++; break; }
            }
            if (write(pp[1], m, sizeof m) != (ssize_t)sizeof m) _exit(96);
            _exit(0);
        }
        close(pp[1]); got = read(pp[0], m, sizeof m); close(pp[0]); waitpid(pid, &st, 0);
        if (got == (ssize_t)sizeof m && WIFEXITED(st) && WEXITSTATUS(st) == 0) { r_raw("k"); for (i = 0; i < 4; i++) r_idx((int)m[i]); }
        else r_raw("s");
    }
    OP("zfork") {     // zfork bound before n: draws of a parent and a child process, `before` draws made before the fork
        int pp[2], st; pid_t pid; char *h, *line = NULL; size_t cap = 0; ssize_t l; FILE *f;
        zarg(b, 1); n = (int)iarg(3); rnd_real();
        for (i = 0; i < (int)iarg(2); i++) mpz_urandom(z, b);
        if (pipe(pp)) die("pipe");
        fflush(out);
        pid = fork();
        if (pid == 0) {
            f = fdopen(pp[1], "w"); for (i = 0; i < n; i++) { mpz_urandom(z, b); gmp_fprintf(f, "%Zx\n", z); } fflush(f); _exit(0);
        }
        close(pp[1]);
        for (i = 0; i < n; i++) { mpz_urandom(z, b); h = zhex(z); r_raw(h); free(h); }
        f = fdopen(pp[0], "r");
        while ((l = getline(&line, &cap, f)) >= 0) { if (l && line[l - 1] == '\n') line[l - 1] = 0; r_raw(line); }
        free(line); fclose(f); waitpid(pid, &st, 0);
    }
    OP("zfault") { run_fault(); }
    OP("nsign") {     // nsign s f msg n: that many signatures; fewest bytes used by one, then r s r s ...
        size_t l; unsigned char *m = barg(3, &l); mpECDSASignature_t g; unsigned long mn = ~0ul; sb_t v = {0}; char *h; int s = hidx(1, 's', 0);
        NEEDV(mS, s); n = (int)iarg(4); sb_reset(&v);
        for (i = 0; i < n; i++) {
            c0 = rnd_total(); if (mpECDSASignature_init_Sign(g, S[s], F[aF(2)], m, l) != 0) { sb_str(&v, ",\"0\",\"0\""); continue; }
            c = rnd_total() - c0; if (c < mn) mn = c;
            mpz_set_mpFp(z, g->r); h = zhex(z); sb_str(&v, ",\""); sb_str(&v, h); free(h);
            mpz_set_mpFp(z, g->s); h = zhex(z); sb_str(&v, "\",\""); sb_str(&v, h); sb_str(&v, "\""); free(h);
            mpECDSASignature_clear(g);
        }
        r_int((long)mn); sb_str(&res, v.b); free(v.b); free(m);
    }
    OP("nenc") {      // nenc Q M n: that many encryptions; fewest bytes used by one, then the points C
        mpECElgamalCiphertext_t e; unsigned long mn = ~0ul; sb_t v = {0}; int q = aP(1), m = aP(2); n = (int)iarg(3); sb_reset(&v);
        for (i = 0; i < n; i++) {
            c0 = rnd_total(); if (mpECElgamal_init_encrypt(e, P[q], P[m]) != 0) { sb_str(&v, ",[\"X\",\"1\",\"0\",\"0\"]"); continue; }
            c = rnd_total() - c0; if (c < mn) mn = c;
            sb_str(&v, ",["); sb_pt(&v, e->C); sb_str(&v, "]"); mpECElgamal_clear(e);
        }
        r_int((long)mn); sb_str(&res, v.b); free(v.b);
    }
    OP("nrand") {     // nrand c n: random points; fewest bytes used by one, then the points
        mpECP_t p; unsigned long mn = ~0ul; sb_t v = {0}; int cc = aC(1); n = (int)iarg(2); sb_reset(&v);
        mpECP_init(p, C[cc]);
        for (i = 0; i < n; i++) {
            c0 = rnd_total(); mpECP_urandom(p, C[cc]); c = rnd_total() - c0; if (c < mn) mn = c;
            sb_str(&v, ",["); sb_pt(&v, p); sb_str(&v, "]");
        }
        mpECP_clear(p); r_int((long)mn); sb_str(&res, v.b); free(v.b);
    }
    else { mpz_clear(z); mpz_clear(b); return 0; }
    mpz_clear(z); mpz_clear(b);
    return 1;
}

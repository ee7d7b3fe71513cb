/* A library solver that records what it is given and answers as told: $STUB_SCRIPT holds one line per call, "code lit lit ... 0". */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static FILE *out, *in;
static signed char *val;
static int cap;
const char *ipasir_signature(void) { return "stub"; }
void *ipasir_init(void) { out = fopen(getenv("STUB_LOG"), "w"); in = fopen(getenv("STUB_SCRIPT"), "r"); return &cap; }
void ipasir_release(void *s) { (void) s; if (out) fclose(out); if (in) fclose(in); out = in = 0; }
void ipasir_add(void *s, int32_t l) { (void) s; fprintf(out, l ? "%d " : "%d\n", l); }
void ipasir_assume(void *s, int32_t l) { (void) s; fprintf(out, "assume %d\n", l); }
int ipasir_solve(void *s) {
    int code, l; (void) s;
    fprintf(out, "solve\n"); fflush(out);
    if (fscanf(in, "%d", &code) != 1) return 0;
    memset(val, 0, cap);
    while (fscanf(in, "%d", &l) == 1 && l) {
        int v = abs(l);
        if (v >= cap) { int n = v * 2 + 16; val = realloc(val, n); memset(val + cap, 0, n - cap); cap = n; }
        val[v] = l > 0 ? 1 : -1;
    }
    return code;
}
int32_t ipasir_val(void *s, int32_t l) { (void) s; int v = abs(l); if (v >= cap || !val[v]) return 0; return val[v] > 0 ? v : -v; }
int ipasir_failed(void *s, int32_t l) { (void) s; (void) l; return 0; }
void ipasir_set_terminate(void *s, void *d, int (*f)(void *)) { (void) s; (void) d; (void) f; }
void ipasir_set_learn(void *s, void *d, int n, void (*f)(void *, int32_t *)) { (void) s; (void) d; (void) n; (void) f; }

/* Collects Go garbage while the library executes: every outermost call into the instrumented
   library waits until the Go side has run the collector and the finalizers.  Linked into the
   library, so that it is there before the first call. */
#include <semaphore.h>
#include <stdlib.h>
#include <dlfcn.h>
#define NOI __attribute__((no_instrument_function, visibility("default")))
static sem_t want, done;
static int ready;
static __thread int depth, on;      /* (of the thread which makes the calls, not of the finalizers') */
NOI void hook_on(void) { on = __atomic_load_n(&ready, __ATOMIC_SEQ_CST); }
NOI int hook_ready(void) { return __atomic_load_n(&ready, __ATOMIC_SEQ_CST); }
NOI void hook_off(void) { on = 0; }
__attribute__((constructor)) NOI void hook_init(void) { sem_init(&want, 0, 0); sem_init(&done, 0, 0); }
NOI void hook_wait(void) { __atomic_store_n(&ready, 1, __ATOMIC_SEQ_CST); while (sem_wait(&want)); }
NOI void hook_done(void) { sem_post(&done); }
NOI void __cyg_profile_func_enter(void *f, void *c) {
    if (depth++) return;
    if (!on) return;
    sem_post(&want);
    while (sem_wait(&done));
}
NOI void __cyg_profile_func_exit(void *f, void *c) { depth--; }
NOI long live_blocks(void) {
    static long (*f)(void);
    if (!f) f = (long (*)(void))dlsym(RTLD_DEFAULT, "count_live_blocks");
    return f ? f() : 0;
}

void hook_on(void);
void hook_off(void);
void hook_wait(void);      /* until the library is entered */
void hook_done(void);
long live_blocks(void);
int hook_ready(void);

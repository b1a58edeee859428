/* Logging has empty bodies in the encoding (it is not the subject of a
 * property unless a harness links the real lib/log.c). Fatal "crash and burn"
 * stays a failure. No repository header is used: calls are matched by name. */
extern void abort (void);
int runtime_loglevel;
int force_enable_trace;
void dx_crash_and_burn (const char *m, ...) { (void) m; abort (); }
void dx_log_disir_va (void) {}
void dx_log_disir (void) {}
void dx_context_error_set (void) {}
void dx_context_error_set_va (void) {}

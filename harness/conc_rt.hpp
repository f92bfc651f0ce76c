#ifndef VERIF_CONC_RT_HPP
#define VERIF_CONC_RT_HPP
#include <cstdarg>
typedef void (*conc_fn_t)();
typedef void (*conc_body_t)(int);
struct conc_stats_t { long executions = 0, transitions = 0, pruned = 0; int max_depth = 0; bool truncated = false; };
extern conc_stats_t conc_stats;
extern int conc_bound;                       // preemption bound; -1: all interleavings (up to commuting independent steps)
void conc_explore(conc_fn_t setup, int threads, conc_body_t body, conc_fn_t finish, long max_exec);
void conc_plain(conc_fn_t f);
const char* conc_violation();
void conc_fail(const char* msg);             // report a violation from inside a thread or from finish()
bool conc_in_thread();
int conc_self();
#endif

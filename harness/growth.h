#ifndef GROWTH_H
#define GROWTH_H
/* growth_reset(); for (i = 0; i < n; i++) { growth_rep(i); work(); } growth_judge(n, names of library functions whose memory is kept by design) */
void growth_rep(int rep);
void growth_reset(void);
void growth_judge(int reps, const char* const* exempt);
#endif

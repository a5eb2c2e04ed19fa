#ifndef MISC_H
#define MISC_H
#include "vh.h"
extern int world_no, case_no; extern const char* mode; extern char scratch[200];
char* slurp(int fd, size_t* n);
void m_log(Rng*); void m_prof(Rng*); void m_agent(Rng*);
#endif

#ifndef UNITS_H
#define UNITS_H
#include "gen.h"
#include "laik-internal.h"
extern Laik_Instance* inst;
extern int world_no, case_no;
/* simulated group number k (0..7) of given size, this process being myid (or -1) */
Laik_Group* use_group(int k, int size, int myid);
void m_cover(Rng*); void m_shape(Rng*); void m_list(Rng*); void m_canon(Rng*); void m_alg(Rng*); void m_filter(Rng*);
void m_layout(Rng*); void m_access(Rng*); void m_alloc(Rng*); void m_types(Rng*); void m_migrate(Rng*); void m_groups(Rng*);
#define FAIL vh_fail
#endif

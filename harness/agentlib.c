/* an agent in a library of its own, as an external tool would provide it */
#include "laik.h"
#include <stdlib.h>
#include <string.h>
int counts[8]; /* initialisations, iterations set, last one, something failed? */
int* mark;
static void det(void) { if (mark) ++*mark; }
static void it(const int i) { counts[1]++; counts[2] = i; }
static int peek(void) { return counts[3]; }
static void get(int* n, node_uid_t* u) { *n = 1; strcpy(u[0].uid, "node-of-library"); }
static Laik_Ft_Agent me;
Laik_Agent* agent_init(int argc, char** argv) { counts[0]++; me.base.type = LAIK_AGENT_FT; me.base.name = "library"; me.base.detach = det; me.setiter = it; me.peekfail = peek; me.getfail = get; return &me.base; }

/* Monitor of LAIK's logging: the log functions are intercepted at link time (-Wl,--wrap), every message is recorded as
 * LAIK asked for it, and the text that really came out is compared with it afterwards. Messages lost because another one
 * was started while they were being built are reported at once. */
#ifndef LOGMON_H
#define LOGMON_H
#include <stddef.h>
void logmon_start(void);                                   /* reads LAIK_LOG as documented; call before LAIK is initialised */
void logmon_check(const char* out, size_t len);            /* compare with what was written */
unsigned logmon_messages(void);
const char* logmon_text(void);                             /* what was appended so far to the message being built */

#endif

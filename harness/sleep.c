/* example programs sleep between phases to give other processes time to join: the checks set their own pace */
#include <stdlib.h>
#include <unistd.h>
unsigned sleep(unsigned s) { const char* e = getenv("VH_SLEEP_US"); usleep(e ? (useconds_t)atoi(e) : s * 1000000); return 0; }

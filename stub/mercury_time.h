#include "mercury.h"
typedef struct timespec hg_time_t;

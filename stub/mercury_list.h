#include "mercury.h"

#include "../env.h"

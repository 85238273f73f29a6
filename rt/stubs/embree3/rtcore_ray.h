#include "rtcore.h"

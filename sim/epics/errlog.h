#include "epicsstub.h"

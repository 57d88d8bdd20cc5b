#include "simwin.h"

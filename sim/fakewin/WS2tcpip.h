#include "simsock.h"

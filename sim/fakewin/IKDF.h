#include "IKdf.h"

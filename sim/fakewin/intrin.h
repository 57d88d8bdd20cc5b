#pragma once
#include "simwin.h"
#include "simcpu.h"

#pragma once
#include "shim_core.h"

#pragma once
#include "pch_native.h"
#include "wblib/shim_core.h"

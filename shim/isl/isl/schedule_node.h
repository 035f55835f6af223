#pragma once
#include <isl/isl_shim.h>

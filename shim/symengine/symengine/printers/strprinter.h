#pragma once
#include <symengine/shim.h>

// Force-included into every translation unit: what the installed p4est 2.3.6 lacks, and FISHPACK's symbol.
#pragma once
#include <functional>
#include <cassert>
#include <cmath>
#include <p4est.h>
#include <p4est_search.h>
extern "C" void p4est_search_reorder(p4est_t*, int, void*, p4est_search_local_t, p4est_search_local_t, p4est_search_local_t, sc_array_t*);

// Input/output markers for the static analyser.  Nothing here is ever executed.
#pragma once
#include <cstddef>
extern "C" double vd_in(int);
extern "C" int vi_in(int);
extern "C" void vd_out(int, double);
extern "C" void vi_out(int, long);

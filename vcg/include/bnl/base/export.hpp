// Stand-in for the header CMake generates (static build: the macro is empty).
#pragma once
#define BNL_BASE_EXPORT
#define BNL_BASE_NO_EXPORT

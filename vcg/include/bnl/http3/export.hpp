// Stand-in for the header CMake generates (static build: the macro is empty).
#pragma once
#define BNL_HTTP3_EXPORT
#define BNL_HTTP3_NO_EXPORT

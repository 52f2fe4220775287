// Stand-in for the header CMake generates (static build: the macro is empty).
#pragma once
#define BNL_LOG_EXPORT
#define BNL_LOG_NO_EXPORT

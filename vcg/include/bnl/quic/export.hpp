// Stand-in for the header CMake generates (static build: the macro is empty).
#pragma once
#define BNL_QUIC_EXPORT
#define BNL_QUIC_NO_EXPORT

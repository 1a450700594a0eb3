// what scc.h needs of the Windows headers
#pragma once
#include <stddef.h>
typedef void *HMODULE;
extern "C" void *GetProcAddress(HMODULE module, const char *name);

/* Forced into every Lua source the simulator compiles: memory, files, time and the hash seed come from the simulator. */
#ifndef GCSIM_LUA_SEAMS_H
#define GCSIM_LUA_SEAMS_H
#include <stdlib.h>
#include <stdio.h>
#include <time.h>
void* gcsim_lua_realloc(void* p, size_t n);
void gcsim_lua_free(void* p);
FILE* gcsim_fopen(char const* name, char const* mode);
FILE* gcsim_freopen(char const* name, char const* mode, FILE* f);
unsigned gcsim_lua_seed(void);
#define realloc(p, n) gcsim_lua_realloc(p, n)
#define free(p) gcsim_lua_free(p)
#define fopen(n, m) gcsim_fopen(n, m)
#define freopen(n, m, f) gcsim_freopen(n, m, f)
#define time(p) ((time_t)1700000000)
#define luai_makeseed(L) ((void)(L), gcsim_lua_seed())
#endif

// Lua's memory and files, owned by the simulator (see lua_seams.h).
#pragma once
#include "core.hh"
#include <map>
#include <string>
#include <cstdio>
namespace sim {
struct LuaMem { int mode = 0; uint32_t n = 0; uint64_t count = 0, failed = 0; int64_t live = 0; };
extern LuaMem lm;
void lua_arm(int mode, uint32_t n);
uint64_t lua_disarm();
extern uint32_t lua_seed_value;
struct SimFile { std::string data; bool missing = false, eio = false; size_t eio_at = 0, pos = 0; };
extern std::map<std::string, SimFile> files;
FILE* open_sim_file(SimFile* f);
}

// Documents in the text formats.
#pragma once
#include "io.hh"
#include "ops.hh"
#include "scen.hh"
namespace sim {
enum Fmt { JSON, YAML, TOML };
extern char const* fmt_name[3];
void quiet_streams();                                       // std::cerr / std::cout of the library go nowhere
Val gen_doc(Fmt f, int depth, bool allow_scalar_top, bool own_types_only = false);       // a document the format can express
void write_doc(Fmt f, GC const& g, std::ostream& s, bool& ok);
bool read_doc(Fmt f, GC& g, std::istream& s, bool other = false);   // other: the second JSON reader
double printed_rel(int prec);
extern char const* const writer_name[11];
void do_write(uint32_t w, GC const& g, Val const& m, std::ostream& os, string const& pre);
Val gen_table(bool as_matrix, bool any_numbers, unsigned& ncol, unsigned& nrow, bool unique);
// An operation on `a` (modified or not) reading `b`. The result text starts with '!' when the operation reported a failure of its own.
struct Big { string name; bool mutates = false; bool exact_result = true; std::function<string(GC&, GC&)> run; };
Big gen_big(Val const& ma, Val const& mb, bool capi);
}

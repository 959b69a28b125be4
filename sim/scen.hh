#pragma once
#include "model.hh"
namespace sim {
struct StepOpt { bool keyed = false; AllocPlan plan; bool report_accept = true, report_reject = true; int prefer = 0; };
void step_ops(GC& g, Val& m, StepOpt const& o);
string diff_vals(Val const& a, Val const& b);
void scen_c01(); void scen_c02(); void scen_c03(); void scen_c04(); void scen_c05(); void scen_c06(); void scen_c07(); void scen_c08();
void scen_c09(); void scen_c10(); void scen_c11(); void scen_c12(); void scen_c13(); void scen_c14(); void scen_c15(); void scen_c16(); void scen_c17() __attribute__((weak)); void scen_c18(); void scen_c20(); void scen_probe_c11();
}

#include "scen.hh"
namespace sim {
Scenario const scenarios[] = {
  {"C01", scen_c01}, {"C02", scen_c02}, {"C05", scen_c05}, {"C06", scen_c06}, {"C07", scen_c07}, {"C08", scen_c08}, {"C09", scen_c09}, {"C03", scen_c03}, {"C04", scen_c04},
  {"C15", scen_c15}, {"C16", scen_c16}, {"C17", scen_c17}, {"C18", scen_c18},
  {"C11", scen_c11}, {"probe_c11_promotion", scen_probe_c11}, {"C12", scen_c12}, {"C13", scen_c13}, {"C20", scen_c20}, {"C10", scen_c10}, {"C14", scen_c14},
  {nullptr, nullptr}
};
}

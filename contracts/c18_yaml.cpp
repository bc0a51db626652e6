// PROPERTY C18
// The contracts of c18_configuration.cpp on the YAML bridge, against the contract of yaml-cpp in third_party/.
#define VP_YAML
#include "config_common.h"
#undef CONTRACT
#define CONTRACT(name, functions)                                                             \
    static void vp_contract_##name();                                                         \
    static ::vp::Registrar vp_registrar_##name("yaml_" #name, functions " (YAML)", &vp_contract_##name); \
    static void vp_contract_##name()
#include "c18_configuration.cpp"

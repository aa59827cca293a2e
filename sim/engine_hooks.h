// force-included into the code under test
#pragma once
extern "C" int sim_reclamation_threshold_c();
inline int sim_reclamation_threshold() { return sim_reclamation_threshold_c(); }

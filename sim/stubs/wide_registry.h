// For variants whose thread registry has room for many threads: everything that
// depends on that number gets names of its own, as other variants are linked in.
#pragma once
#define SIM_REGISTRY 130
#define indexes indexes_wide
#define sync_prim sync_prim_wide

#ifndef EDYN_BUILD_SETTINGS_H
#define EDYN_BUILD_SETTINGS_H
#define EDYN_DISABLE_PROFILING
#endif

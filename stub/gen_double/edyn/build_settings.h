#ifndef EDYN_BUILD_SETTINGS_H
#define EDYN_BUILD_SETTINGS_H
#define EDYN_DISABLE_PROFILING
#define EDYN_DOUBLE_PRECISION
#endif

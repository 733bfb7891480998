// Stand-in for libqi's macro.hpp: only the export macro is needed.
#pragma once
#define QI_LIB_API(lib)

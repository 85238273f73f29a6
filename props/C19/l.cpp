// the light side: reads the flags that qbsp wrote
#include <fstream>
#include "sx.h"
#include <light/light.cc>
#include <light/write.cc>
ray_source_info::ray_source_info(raystream_embree_base_t *r, const modelinfo_t *s, int m) : raystream(r), self(s), shadowmask(m) { }
std::vector<surfflags_t> load_flags(const mbsp_t &bsp)
{
    extended_texinfo_flags.clear();
    LoadExtendedTexinfoFlags("map.bsp", &bsp);
    return extended_texinfo_flags;
}
RTCScene scene;
sceneinfo skygeom, solidgeom, filtergeom;

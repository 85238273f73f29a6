#include <stdexcept>
#include "sx.h"
#include <light/trace_embree.hh>
#include <light/trace.hh>
#include <light/light.hh>
// no ray is ever traced here
ray_source_info::ray_source_info(raystream_embree_base_t *r, const modelinfo_t *s, int m) : raystream(r), self(s), shadowmask(m) { sx_fail("a ray is traced"); }
RTCScene scene;
sceneinfo skygeom, solidgeom, filtergeom;

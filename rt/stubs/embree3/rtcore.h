// Stand-in for the Embree 3 headers, which this sandbox does not have: just the types and
// calls that light/ uses. The calls are the harness's.
#pragma once
#include <cstddef>
#define RTC_INVALID_GEOMETRY_ID ((unsigned int)-1)
struct RTCSceneTy;
typedef struct RTCSceneTy *RTCScene;
struct RTCIntersectContext
{
    unsigned flags = 0;
    unsigned instID[1] = {RTC_INVALID_GEOMETRY_ID};
};
struct alignas(16) RTCRay
{
    float org_x, org_y, org_z, tnear, dir_x, dir_y, dir_z, time, tfar;
    unsigned mask, id, flags;
};
struct alignas(16) RTCHit
{
    float Ng_x, Ng_y, Ng_z, u, v;
    unsigned primID, geomID, instID[1];
};
struct RTCRayHit
{
    RTCRay ray;
    RTCHit hit;
};
void rtcIntersect1M(RTCScene, RTCIntersectContext *, RTCRayHit *, unsigned n, size_t stride);
void rtcOccluded1M(RTCScene, RTCIntersectContext *, RTCRay *, unsigned n, size_t stride);

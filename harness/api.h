// the classes of the programming interface
#pragma once
#include "graph.h"
#define private public
#define protected public
#include <api/all_api_entities.h>
#include <api/dll_iges.h>
#include <api/dll_iges_curve.h>
#include <api/dll_mcad_segment.h>
#include <api/dll_mcad_outline.h>
#include <api/dll_iges_geom_pcb.h>
#include <geom/mcad_segment.h>
#include <geom/mcad_outline.h>
#include <geom/iges_geom_pcb.h>
#undef private
#undef protected
static const int ATYPES[] = { 110, 100, 102, 104, 120, 122, 124, 126, 128, 142, 144, 308, 314, 406, 408 };
static const int NATYPES = 15;
template<class M> static DLL_IGES_ENTITY* mkh(int type, M m, bool create) {
  switch (type) {
    case 100: return new DLL_IGES_ENTITY_100(m, create); case 102: return new DLL_IGES_ENTITY_102(m, create); case 104: return new DLL_IGES_ENTITY_104(m, create); case 110: return new DLL_IGES_ENTITY_110(m, create); case 120: return new DLL_IGES_ENTITY_120(m, create);
    case 122: return new DLL_IGES_ENTITY_122(m, create); case 124: return new DLL_IGES_ENTITY_124(m, create); case 126: return new DLL_IGES_ENTITY_126(m, create); case 128: return new DLL_IGES_ENTITY_128(m, create); case 142: return new DLL_IGES_ENTITY_142(m, create);
    case 144: return new DLL_IGES_ENTITY_144(m, create); case 308: return new DLL_IGES_ENTITY_308(m, create); case 314: return new DLL_IGES_ENTITY_314(m, create); case 406: return new DLL_IGES_ENTITY_406(m, create); case 408: return new DLL_IGES_ENTITY_408(m, create); }
  return 0; }

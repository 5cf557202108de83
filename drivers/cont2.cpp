// Further instantiations of the container templates.
#include "lightspeed/base/types.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/containers/string.tcc"
#include "lightspeed/base/containers/map.tcc"
#include "lightspeed/base/containers/set.tcc"
#include "lightspeed/base/containers/btree.h"
#include "lightspeed/base/containers/buffer.h"
#include "lightspeed/base/containers/arraySet.tcc"
#include "lightspeed/base/containers/variant.h"
#include "lightspeed/base/memory/shareAlloc.h"
#include "lightspeed/base/memory/ownedPointer.h"
#include "lightspeed/base/memory/staticAlloc.h"
#include "lightspeed/base/streams/fileio.h"
#include "lightspeed/base/streams/fileiobuff.tcc"
using namespace LightSpeed;
template class LightSpeed::MultiMap<StringA,int>;
template class LightSpeed::BTree<StringA>;
template class LightSpeed::BTreeIterator<StringA>;
void use_variant(Variant &v, StringA s) { v = Variant(s); v.isType<StringA>(); v.getPtr<StringA>(); Variant w(v); w = v; }

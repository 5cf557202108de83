// Explicit instantiations of the container templates.
#include "lightspeed/base/types.h"
#include "lightspeed/base/containers/autoArray.tcc"
#include "lightspeed/base/containers/autoArray.h"
#include "lightspeed/base/containers/string.tcc"
#include "lightspeed/base/containers/map.tcc"
#include "lightspeed/base/containers/set.h"
#include "lightspeed/base/containers/deque.tcc"
#include "lightspeed/base/containers/linkedList.h"
#include "lightspeed/base/containers/stringpool.tcc"
#include "lightspeed/base/containers/avltree.tcc"
#include "lightspeed/base/containers/resourcePool.h"
#include "lightspeed/base/containers/optional.h"
#include "lightspeed/base/containers/variant.h"
#include "lightspeed/base/containers/flatArray.h"
#include "lightspeed/base/containers/constStr.h"
#include "lightspeed/base/memory/smallAlloc.h"
#include "lightspeed/base/memory/rtAlloc.h"
#include "lightspeed/base/memory/clusterAlloc.h"
#include "lightspeed/base/memory/poolalloc.h"
#include "lightspeed/base/memory/staticAlloc.h"
#include "lightspeed/base/memory/inBlockAlloc.h"
#include "lightspeed/base/containers/set.tcc"
#include "lightspeed/base/containers/priorityQueue.tcc"
#include "lightspeed/base/containers/queue.tcc"
#include "lightspeed/base/containers/stack.tcc"
#include "lightspeed/base/containers/sort.tcc"
#include "lightspeed/base/containers/arraySet.tcc"
#include "lightspeed/base/containers/buffer.h"
using namespace LightSpeed;
template class LightSpeed::AutoArray<int>;
template class LightSpeed::AutoArray<StringA>;
template class LightSpeed::AutoArray<StringA, SmallAlloc<16> >;
template class LightSpeed::AutoArray<StringA, StaticAlloc<16> >;
template class LightSpeed::AutoArray<StringA, RTAlloc >;
template class LightSpeed::Deque<StringA>;
template class LightSpeed::LinkedList<StringA>;
template class LightSpeed::StringPool<char>;
template class LightSpeed::StringCore<char>;

template class LightSpeed::AVLTree<int, std::less<int> >;
typedef Map<StringA,int> TMap;
typedef MultiMap<StringA,int> TMMap;
int use_map(TMap &m, StringA k, int v) {
	bool b; m.insert(k,v,&b); m.erase(k); const TMap &c = m; c.find(k); int *p = m.find(k); m.seek(k,&b); m.replace(k,v);
	TMap::Iterator it = m.getFwIter(); while (it.hasItems()) { it.peek(); it.getNext(); it.skip(); }
	it = m.getBkIter(); m.erase(it); m.clear(); TMap m2(m); m2 = m; m(k,v); m.swap(m2);
	return c[k] + m(k) + (p?*p:0) + m.size() + m.empty();
}
void use_set(Set<StringA> &s, StringA k) {
	bool b; s.insert(k,&b); s.erase(k); s.find(k); s.seek(k,&b); s.compare(s);
}
void use_mmap(TMMap &m, StringA k, int v) {
	m.insert(k,v); m.find(k); m.erase(k); TMMap::ListIter i = m.find(k); m.size(); m.clear();
	TMMap::Iterator it = m.getFwIter(); while (it.hasItems()) it.getNext();
}
void use_opt(Optional<StringA> &o, StringA v) {
	Optional<StringA> p(v), q(o), r; q = o; q = nil; q = v; 
}
template class LightSpeed::PriorityQueue<StringA>;
template class LightSpeed::Queue<StringA>;
template class LightSpeed::Stack<StringA>;
struct TRes: public AbstractResource { int x; };
template class LightSpeed::ResourcePtr<TRes>;

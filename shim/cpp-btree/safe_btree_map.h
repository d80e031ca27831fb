#ifndef VERIF_BTREE_MAP_SHIM
#define VERIF_BTREE_MAP_SHIM
#include <map>
namespace btree {
/* std::map iterators stay valid under insertion, which is what the "safe"
 * variant of the B-tree guarantees. */
template <class K, class V> class safe_btree_map : public std::map<K, V> {
public:
	using std::map<K, V>::map;
	safe_btree_map() : std::map<K, V>() {}
};
template <class K, class V> class btree_map : public std::map<K, V> {};
}
#endif

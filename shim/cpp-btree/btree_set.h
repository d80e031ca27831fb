#ifndef VERIF_BTREE_SET_SHIM
#define VERIF_BTREE_SET_SHIM
#include <set>
namespace btree {
template <class T> class btree_set : public std::set<T> {
public:
	using std::set<T>::set;
	btree_set() : std::set<T>() {}
};
}
#endif

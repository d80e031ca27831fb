#ifndef VERIF_GPQ_SHIM
#define VERIF_GPQ_SHIM
#include <queue>
#include <vector>
template <class Heap, class T, class C = std::vector<T>,
		class Less = std::less<T> >
class gpriority_queue : public std::priority_queue<T, C, Less> {
	typedef std::priority_queue<T, C, Less> base;
public:
	gpriority_queue() : base() {}
	template <class It> gpriority_queue(It a, It b) : base(a, b) {}
};
#endif

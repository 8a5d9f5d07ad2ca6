// C11: lifetimes of tracked classes in these positions.
#include "c11_common.h"
namespace c11 { using namespace std; static int reg = [] { C11(map<int, D>); C11(map<D, string>); C11(set<T>); C11(multiset<Rc>); C11(unordered_map<string, Dm>); C11(unordered_set<Rc, Hash>); C11(tuple<D, Rc, Tm>); C11(pair<D, string>); return 0; }(); }
extern "C" int c11_part_2() { return c11::reg; }

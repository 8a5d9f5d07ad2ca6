// C11: lifetimes of tracked classes in these positions.
#include "c11_common.h"
namespace c11 { using namespace std; static int reg = [] { C11(list<Dm>); C11(list<Rc>); C11(deque<T>); C11(queue<D>); C11(queue<Rc>); C11(optional<Rc>); C11(optional<Tm>); C11(variant<int, D, Rc>); C11(variant<D, string, Tm>); return 0; }(); }
extern "C" int c11_part_1() { return c11::reg; }

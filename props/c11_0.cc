// C11: lifetimes of tracked classes in these positions.
#include "c11_common.h"
namespace c11 { using namespace std; static int reg = [] { C11(D); C11(Rc); C11(vector<D>); C11(vector<T>); C11(vector<Rc>); C11(vector<Tm>); C11(unique_ptr<T>); C11(unique_ptr<Rc>); return 0; }(); }
extern "C" int c11_part_0() { return c11::reg; }

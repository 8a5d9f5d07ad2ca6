// C11: lifetimes of tracked classes in these positions.
#include "c11_common.h"
namespace c11 { using namespace std; static int reg = [] { C11(Rec); C11(vector<Rec>); C11(Raw); C11(list<Raw>); C11(unique_ptr<PB>); C11(vector<unique_ptr<PB>>); C11(vector<unique_ptr<vector<optional<T>>>>); C11(array<D, 3>); C11(map<int, vector<unique_ptr<Tm>>>); return 0; }(); }
extern "C" int c11_part_3() { return c11::reg; }

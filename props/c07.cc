// C07: polymorphic objects keep their dynamic type and every layer's state. The hierarchies are generated (tools/genpoly.py).
#include "../pbt/engine.h"
namespace pbt { void registerUnits() {} }
int main(int argc, char** argv) { return pbt::runMain(argc, argv, false); }

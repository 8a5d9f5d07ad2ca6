#include "huge.h"
namespace pbt { void registerUnits() { addUnit("huge objects", HUGE_UNIT(buffer)); } }
int main(int argc, char** argv) { return pbt::runMain(argc, argv, false); }

// C08 (PROP=8): restored objects are constructed by the documented strategy. C22 (PROP=22): each class is traversed by exactly the
// functions it provides. The classes are generated (tools/genclass.py).
#include "c08_common.h"
namespace {
struct Nothing { int x; };
struct NoConstructor { explicit NoConstructor(int) {} template <typename S> void serialize(S&) {} };
struct Abstract { virtual void f() = 0; virtual ~Abstract() = default; template <typename S> void serialize(S&) {} };
struct WrongReconstruct { explicit WrongReconstruct(int) {} static int reconstruct(void*); template <typename S> void serialize(S&) {} };
struct FalseMark { using isByteCopyable = std::false_type; };
struct OwnByteCopyable { struct isByteCopyable {}; };           // an unrelated member of that name is no declaration
template <typename T> c08::Traits of() { using Q = checkpoint::SerializableTraits<T>; return {Q::has_serialize_function, Q::is_bytecopyable, Q::is_default_constructible, Q::is_tagged_constructible, Q::is_reconstructible, Q::is_constructible, Q::is_serializable, Q::is_traversable}; }
int reg = [] {
  c08::traits("traits of a class without facilities", of<Nothing>(), {false, false, true, false, false, true, false, false});
  c08::traits("traits of a class without constructor", of<NoConstructor>(), {true, false, false, false, false, false, false, true});
  c08::traits("traits of an abstract class", of<Abstract>(), {true, false, false, false, false, false, false, true});
  c08::traits("traits of a class whose reconstruct returns something else", of<WrongReconstruct>(), {true, false, false, false, false, false, false, true});
  c08::traits("traits of a class declared not byte-copyable", of<FalseMark>(), {false, false, true, false, false, true, false, false});
  c08::traits("traits of a class with an unrelated isByteCopyable", of<OwnByteCopyable>(), {false, false, true, false, false, true, false, false});
  c08::traits("traits of int", of<int>(), {false, true, true, false, false, true, false, true});
  c08::traits("traits of double", of<double>(), {false, true, true, false, false, true, false, true});
  c08::traits("traits of vector<int>", of<std::vector<int>>(), {true, false, true, false, false, true, true, true});
  c08::traits("traits of map<int, string>", of<std::map<int, std::string>>(), {true, false, true, false, false, true, true, true});
  c08::traits("traits of string", of<std::string>(), {true, false, true, false, false, true, true, true});
  return 0;
}();
}  // namespace
namespace pbt { void registerUnits() {} }
int main(int argc, char** argv) { return pbt::runMain(argc, argv, false); }

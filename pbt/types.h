// The curated type list, in parts (each compiled on its own).
#pragma once
#include "zoo.h"

namespace tl {
using namespace std;
using namespace zoo;
using Ms = chrono::milliseconds; using DNs = chrono::duration<double, nano>; using H8 = chrono::duration<int8_t, ratio<3600>>;
}

#define TYPES_0(X)                                                                                  \
  X(int) X(uint8_t) X(double) X(float) X(bool) X(char32_t) X(int64_t) X(zoo::E8) X(zoo::E64)        \
  X(string) Y(vector<int>) X(vector<double>) X(vector<bool>) X(Ms) X(DNs) X(vector<string>)         \
  X(array<int, 5>) X(Odd3) X(long double)
#define TYPES_1(X)                                                                                  \
  Y(In) X(Non) X(Small) X(ByBase) X(ByUsing) X(ByNon) X(ByMacro) X(ByAligned) X(ByTrait) X(ByFalse) \
  X(Block) X(zoo::Empty) X(vector<Small>) X(vector<ByUsing>) X(Split2) X(Cond) X(vector<zoo::Empty>)
#define TYPES_2(X)                                                                                  \
  X(Tagged) X(Recon) Y(ReconFree) X(ReconSpec) X(vector<Tagged>) X(vector<Recon>) X(vector<ReconFree>) X(vector<ReconSpec>) \
  X(list<Tagged>) X(deque<ReconSpec>) X(unique_ptr<Recon>) X(optional<Tagged>)
#define TYPES_3(X)                                                                                  \
  X(MoveOnly) X(MoveOnlyTagged) X(Pinned) X(Handle) X(HandleTagged) X(vector<MoveOnly>) X(list<HandleTagged>) \
  X(vector<HandleTagged>) X(deque<Handle>) X(DynArr) X(IntArr) Y(Ptrs)
#define TYPES_4(X)                                                                                  \
  X(Tree) X(Chain) Y(Prefilled) X(Der) X(unique_ptr<vector<string>>) X(vector<unique_ptr<In>>)      \
  X(Wrap<vector<string>>) X(WrapNon<optional<int>>)
#define TYPES_5(X)                                                                                  \
  Y(map<int PBT_COMMA string>) X(multimap<string PBT_COMMA int>) X(set<string>) X(multiset<int>)    \
  X(map<int PBT_COMMA int PBT_COMMA Greater>) X(set<string PBT_COMMA ByLen>) X(map<Small PBT_COMMA In>) \
  X(map<string PBT_COMMA map<int PBT_COMMA vector<string>>>) X(set<Small>)
#define TYPES_6(X)                                                                                  \
  Y(unordered_map<int PBT_COMMA string>) X(unordered_multimap<int PBT_COMMA double>) X(unordered_set<string>) X(unordered_multiset<int>) \
  X(unordered_map<string PBT_COMMA In PBT_COMMA StrHash>) X(unordered_set<int PBT_COMMA BadHash>) X(unordered_map<Small PBT_COMMA MoveOnly PBT_COMMA SmallHash>)
#define TYPES_7(X)                                                                                  \
  X(list<int>) X(list<vector<int>>) X(deque<string>) X(deque<int>) X(queue<int>) Y(queue<pair<int PBT_COMMA string>>) X(list<list<string>>) \
  X(vector<vector<vector<int>>>) X(vector<int PBT_COMMA CountingAlloc<int>>) X(unique_ptr<string PBT_COMMA Del<string>>)
#define TYPES_8(X)                                                                                  \
  X(optional<int>) X(optional<vector<string>>) X(optional<optional<string>>) X(variant<int PBT_COMMA double>) Y(variant<int PBT_COMMA string PBT_COMMA In>) \
  X(variant<zoo::Empty PBT_COMMA Tagged PBT_COMMA vector<int>>) X(vector<variant<int PBT_COMMA string>>) X(optional<variant<bool PBT_COMMA string>>)
#define TYPES_9(X)                                                                                  \
  X(pair<int PBT_COMMA string>) X(pair<string PBT_COMMA vector<double>>) X(tuple<int PBT_COMMA string PBT_COMMA Recon>) X(tuple<>) X(tuple<MoveOnly PBT_COMMA uint8_t>) \
  X(vector<pair<int PBT_COMMA double>>) X(array<string PBT_COMMA 3>) X(array<vector<int> PBT_COMMA 2>) X(array<array<Small PBT_COMMA 2> PBT_COMMA 3>) \
  Y(tuple<vector<Tagged> PBT_COMMA unique_ptr<In> PBT_COMMA optional<string>>)
#define TYPES_10(X)                                                                                 \
  Y(poly::M0) X(poly::M4) X(unique_ptr<poly::M0>) X(vector<unique_ptr<poly::M0>>) X(map<int PBT_COMMA unique_ptr<poly::M0>>) X(unique_ptr<poly::A0>) X(vector<poly::M2>) X(list<poly::M1b>)
#define TYPES_11(X)                                                                                 \
  Y(poly::C3) X(list<unique_ptr<poly::C0>>) X(unique_ptr<poly::C0>) X(vector<poly::C2>) X(unique_ptr<poly::N0>) X(vector<unique_ptr<poly::N0>>)
#define TYPES_12(X) X(poly::Mix)
constexpr int kParts = 13;

// The laws about trees once more, for the library built with KDL_USE_NEW_TREE_INTERFACE (tree elements held by shared
// pointers): check.py compiles the library and this file with that option.  Law names get the property they come from.
#include "gen.hpp"
#include "dyn.hpp"
#include "ik.hpp"
#include "treefksolverpos_recursive.hpp"
#include "treejnttojacsolver.hpp"
#include "treeidsolver_recursive_newton_euler.hpp"
#include "treeiksolvervel_wdls.hpp"
#include "treeiksolverpos_nr_jl.hpp"
#include "treeiksolverpos_online.hpp"
#include "chainfksolverpos_recursive.hpp"
#include "chainfksolvervel_recursive.hpp"
#include "chainjnttojacsolver.hpp"
#include "chainidsolver_recursive_newton_euler.hpp"
#include <memory>
#include <set>
#include <map>
#include <algorithm>
#undef LAW
#define LAW(NAME, QUICK, RULE) \
    static void law_##NAME(pbt::Src&); \
    static pbt::Reg reg_##NAME(FROM #NAME, QUICK / 3, RULE, law_##NAME); \
    static void law_##NAME(pbt::Src& s)
#define FROM "K02_"
namespace k02 {
#include "K02.cpp"
}
#undef FROM
#define FROM "K03_"
namespace k03 {
#include "K03.cpp"
}
#undef FROM
#define FROM "K08_"
namespace k08 {
#include "K08.cpp"
}
#undef FROM
#define FROM "D05_"
namespace d05 {
#include "D05.cpp"
}
#undef FROM
#define FROM "I05_"
namespace i05 {
#include "I05.cpp"
}

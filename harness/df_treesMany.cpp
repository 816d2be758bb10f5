#include "df_trees.h"
void addTreesMany(std::vector<DfKind>& v) {
  addTree<unsigned char, 40, true, true, true, 4, true>(v);
  addTree<unsigned char, 40, true, true, false, 4, true>(v);
  addTree<unsigned char, 40, true, false, true, 2, true>(v);
  addTree<long long, 40, true, true, false, 8, true>(v);
  addTree<long long, 40, true, true, true, 8, false>(v);
}
// leaves of several entries, few variables
void addTreesBig(std::vector<DfKind>& v) {
  addTree<int, 4, false, false, true, 4, true>(v);
  addTree<int, 4, false, false, false, 5, true>(v);
  addTree<int, 4, true, true, true, 5, true>(v);
  addTree<int, 4, true, true, false, 4, true>(v);
  addTree<short, 4, true, false, true, 7, true>(v);
}

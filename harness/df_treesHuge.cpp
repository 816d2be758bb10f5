#include "df_trees.h"
// leaves of many entries, few variables
void addTreesHuge(std::vector<DfKind>& v) {
  addTree<int, 4, true, true, true, 16, true>(v);
  addTree<int, 4, false, false, false, 16, true>(v);
  addTree<int, 4, true, false, false, 40, true>(v);
  addTree<int, 4, false, false, true, 100, true>(v);
  addTree<int, 4, true, true, true, 300, true>(v);
  addTree<int, 4, true, true, false, 300, true>(v);
  addTree<int, 4, true, true, true, 40, false>(v);
  addTree<int, 4, true, true, true, 1, true>(v);
  addTree<int, 4, false, false, false, 2, true>(v);
}

#include "df_trees.h"
void addTreesB0(std::vector<DfKind>& v) {addTrees<false,false,false>(v);}

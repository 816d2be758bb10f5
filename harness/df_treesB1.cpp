#include "df_trees.h"
void addTreesB1(std::vector<DfKind>& v) {addTrees<true,false,false>(v);}

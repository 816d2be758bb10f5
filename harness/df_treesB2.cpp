#include "df_trees.h"
void addTreesB2(std::vector<DfKind>& v) {addTrees<true,true,false>(v);}

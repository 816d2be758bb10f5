#include "df_trees.h"
void addTreesP0(std::vector<DfKind>& v) {addTrees<false,false,true>(v);}

#include "df_trees.h"
void addTreesP2(std::vector<DfKind>& v) {addTrees<true,true,true>(v);}

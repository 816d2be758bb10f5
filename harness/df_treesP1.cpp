#include "df_trees.h"
void addTreesP1(std::vector<DfKind>& v) {addTrees<true,false,true>(v);}

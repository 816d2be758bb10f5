#include "divfinder.h"
#include "mathic/KDTree.h"
namespace {
  template<class Exp, size_t MaxVars, bool DM, bool TDM, bool Packed, size_t Leaf, bool Rem>
  struct KdConf : public DfConf<Exp, MaxVars> {
    explicit KdConf(const DfParams& p): DfConf<Exp, MaxVars>(p) {}
    static const bool UseDivMask = DM;
    static const bool UseTreeDivMask = TDM;
    static const bool PackedTree = Packed;
    static const size_t LeafSize = Leaf;
    static const bool AllowRemovals = Rem;
    size_t getLeafSize() const {return Leaf;}
  };
  // removal can only be instantiated if it is allowed
  template<class Conf, bool Rem> class KdDf;
  template<class Conf>
  class KdDf<Conf, true> : public DfBase<Conf, mathic::KDTree<Conf> > {
  public:
    typedef DfBase<Conf, mathic::KDTree<Conf> > B;
    explicit KdDf(const DfParams& p): B(p) {}
    bool removeMultiples(const Exps& m, std::vector<Item>* out) override {
      const typename Conf::Monomial mono = this->toMono(m);
      if (out == 0) return this->f->removeMultiples(mono);
      typename B::Collect c(*this, *out);
      return this->f->removeMultiples(mono, c);
    }
    bool removeElement(const Exps& m) override {return this->f->removeElement(this->toMono(m));}
    void clear() override {this->f->clear();}
    bool isList() override {return false;}
  };
  template<class Conf>
  class KdDf<Conf, false> : public DfBase<Conf, mathic::KDTree<Conf> > {
  public:
    typedef DfBase<Conf, mathic::KDTree<Conf> > B;
    explicit KdDf(const DfParams& p): B(p) {}
    bool removeMultiples(const Exps& m, std::vector<Item>* out) override {return false;}
    bool removeElement(const Exps& m) override {return false;}
    void clear() override {this->f->clear();}
    bool isList() override {return false;}
  };
  template<class Exp, size_t MaxVars, bool DM, bool TDM, bool Packed, size_t Leaf, bool Rem>
  void addTree(std::vector<DfKind>& v) {
    typedef KdConf<Exp, MaxVars, DM, TDM, Packed, Leaf, Rem> C;
    DfKind k;
    k.name = std::string(Packed ? "packed" : "binary") + (TDM ? " treemask" : DM ? " mask" : "") +
      " leaf" + mc::str(Leaf) + (Rem ? "" : " noremove") + (sizeof(Exp) == 4 ? "" : " smallexp");
    k.make = [](const DfParams& p) -> IDF* {return new KdDf<C, Rem>(p);};
    k.list = false; k.packed = Packed; k.leaf = Leaf; k.removals = Rem; k.masks = DM;
    v.push_back(k);
  }
  template<bool DM, bool TDM, bool Packed>
  void addTrees(std::vector<DfKind>& v) {
    addTree<int, 4, DM, TDM, Packed, 1, true>(v);
    addTree<int, 4, DM, TDM, Packed, 2, true>(v);
    addTree<int, 4, DM, TDM, Packed, 3, true>(v);
    addTree<int, 4, DM, TDM, Packed, 1, false>(v);
    addTree<int, 4, DM, TDM, Packed, 2, false>(v);
  }
}

#include "divfinder.h"
#include "mathic/DivList.h"
namespace {
  template<class Exp, size_t MaxVars, bool Linked, bool DM>
  struct ListConf : public DfConf<Exp, MaxVars> {
    explicit ListConf(const DfParams& p): DfConf<Exp, MaxVars>(p) {}
    static const bool UseLinkedList = Linked;
    static const bool UseDivMask = DM;
  };
  template<class Conf>
  class ListDf : public DfBase<Conf, mathic::DivList<Conf> > {
  public:
    typedef mathic::DivList<Conf> L;
    typedef DfBase<Conf, L> B;
    explicit ListDf(const DfParams& p): B(p) {}
    bool removeMultiples(const Exps& m, std::vector<Item>* out) override {
      const typename Conf::Monomial mono = this->toMono(m);
      if (out == 0) return this->f->removeMultiples(mono);
      typename B::Collect c(*this, *out);
      return this->f->removeMultiples(mono, c);
    }
    bool removeElement(const Exps& m) override {return this->f->removeElement(this->toMono(m));}
    bool isList() override {return true;}
    void iterate(bool viaConst, std::vector<Item>& out, bool backwards) override {
      if (viaConst) {
        const L& l = *this->f;
        if (!backwards)
          for (typename L::const_iterator it = l.begin(); it != l.end(); ++it) out.push_back(this->fromEntry(*it));
        else
          for (typename L::const_iterator it = l.end(); it != l.begin();) {--it; out.push_back(this->fromEntry(*it));}
      } else {
        if (!backwards)
          for (typename L::iterator it = this->f->begin(); it != this->f->end(); it++) out.push_back(this->fromEntry(*it));
        else
          for (typename L::iterator it = this->f->end(); it != this->f->begin();) {it--; out.push_back(this->fromEntry(*it));}
      }
    }
    bool findDivisorIterator(const Exps& m, Item& result, bool front) override {
      typename L::iterator it = this->f->findDivisorIterator(this->toMono(m));
      if (it == this->f->end()) return false;
      result = this->fromEntry(*it);
      if (front) this->f->moveToFront(it);
      return true;
    }
    void moveToFront(size_t pos) override {
      typename L::iterator it = this->f->begin();
      for (size_t i = 0; i < pos; ++i) ++it;
      this->f->moveToFront(it);
    }
  };
  template<class Exp, size_t MaxVars, bool Linked, bool DM>
  void addList(std::vector<DfKind>& v) {
    typedef ListConf<Exp, MaxVars, Linked, DM> C;
    DfKind k;
    k.name = std::string(Linked ? "linked" : "array") + (DM ? " mask" : "") + (sizeof(Exp) == 4 ? "" : " smallexp");
    k.make = [](const DfParams& p) -> IDF* {return new ListDf<C>(p);};
    k.list = true; k.packed = false; k.leaf = 0; k.removals = true; k.masks = DM;
    v.push_back(k);
  }
}
void addLists(std::vector<DfKind>& v) {
  addList<int, 4, false, false>(v);
  addList<int, 4, false, true>(v);
  addList<int, 4, true, false>(v);
  addList<int, 4, true, true>(v);
}
void addListsMany(std::vector<DfKind>& v) {
  addList<unsigned char, 40, false, true>(v);
  addList<unsigned char, 40, true, true>(v);
  addList<long long, 40, false, true>(v);
}

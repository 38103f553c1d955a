// ll2c: mechanical translator from LLVM 18 IR (as produced by clang -O0 + sroa/mem2reg from
// /repo's sources) to C accepted by goto-cc/CBMC.  It contains no knowledge about t8code.
//
// usage: ll2c in.bc out.c root1 root2 ...        (roots: functions to be translated, transitively)
// A report (JSON) goes to stdout: functions translated, bodyless externals referenced, traps.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <deque>
#include <iostream>
#include <sstream>
#include <cstring>
using namespace llvm;
typedef std::string S;

static const DataLayout *DL;
static std::map<Type *, S> tname;
static std::ostringstream tdefs;
static std::vector<S> warnings;
static void warn (const S &s) { warnings.push_back (s); }
static S str (const Type *t) { S s; raw_string_ostream o (s); t->print (o); return s; }
static S num (uint64_t n) { return std::to_string (n); }

// a type of size k that the object behind pointer v is known to have (only a hint for how a block copy of k
// bytes is written down: any type of that size gives the same copy)
static Type *descend (Type *t, uint64_t k)
{
  while (t && t->isSized () && DL->getTypeAllocSize (t) > k) {
    if (auto *st = dyn_cast<StructType> (t)) t = st->getNumElements () ? st->getElementType (0) : nullptr;
    else if (auto *at = dyn_cast<ArrayType> (t)) t = at->getElementType ();
    else t = nullptr;
  }
  if (t && t->isSized () && DL->getTypeAllocSize (t) == k && (t->isStructTy () || t->isArrayTy ())) return t;
  return nullptr;
}
static Type *pointeeOfSize (Value *v, uint64_t k, int depth)
{
  v = v->stripPointerCasts ();
  Type *tt = nullptr;
  if (auto *a = dyn_cast<AllocaInst> (v)) tt = descend (a->getAllocatedType (), k);
  else if (auto *g = dyn_cast<GlobalVariable> (v)) tt = descend (g->getValueType (), k);
  else if (auto *g = dyn_cast<GEPOperator> (v)) tt = descend (g->getResultElementType (), k);
  if (tt) return tt;
  for (User *u : v->users ())
    if (auto *g = dyn_cast<GEPOperator> (u))
      if (g->getPointerOperand () == v && (tt = descend (g->getSourceElementType (), k))) return tt;
  if (depth <= 0) return nullptr;
  if (auto *a = dyn_cast<Argument> (v)) {
    for (User *u : a->getParent ()->users ())
      if (auto *cb = dyn_cast<CallBase> (u))
        if (cb->getCalledFunction () == a->getParent () && a->getArgNo () < cb->arg_size ()
            && (tt = pointeeOfSize (cb->getArgOperand (a->getArgNo ()), k, depth - 1))) return tt;
  }
  // passed on to a function that knows
  for (User *u : v->users ())
    if (auto *cb = dyn_cast<CallBase> (u))
      if (Function *f = cb->getCalledFunction ())
        if (!f->isDeclaration ())
          for (unsigned i = 0; i < cb->arg_size () && i < f->arg_size (); i++)
            if (cb->getArgOperand (i) == v)
              for (User *w : f->getArg (i)->users ())
                if (auto *g = dyn_cast<GEPOperator> (w))
                  if (g->getPointerOperand () == f->getArg (i) && (tt = descend (g->getSourceElementType (), k))) return tt;
  return nullptr;
}

static S san (StringRef n)
{
  S r;
  for (char c : n) r += (isalnum ((unsigned char) c) || c == '_') ? c : '_';
  return r;
}

static S intT (unsigned w, bool sgn)
{
  if (w == 1) return "_Bool";
  if (w == 8 || w == 16 || w == 32 || w == 64) return S (sgn ? "int" : "uint") + num (w) + "_t";
  if (w == 128) return sgn ? "__int128" : "unsigned __int128";
  return S (sgn ? "signed" : "unsigned") + " __CPROVER_bitvector[" + num (w) + "]";
}

// CBMC 6.11 reads a wrong element when an object contains arrays whose elements start with an array and such an element
// is read at a symbolic index.  Nested arrays are therefore written as one flat array, and a struct that is the element
// of an array and starts with an array gets the array's first element as a member of its own (same layout).
static Type *flatElem (ArrayType *at) { Type *e = at->getElementType (); while (auto *a = dyn_cast<ArrayType> (e)) e = a->getElementType (); return e; }
static uint64_t flatNum (Type *t) { uint64_t n = 1; while (auto *a = dyn_cast<ArrayType> (t)) { n *= a->getNumElements (); t = a->getElementType (); } return n; }
static std::set<Type *> headSplit, scanned;
static void markHead (Type *t)
{
  auto *st = dyn_cast<StructType> (t);
  if (!st || st->isOpaque () || st->isPacked () || !st->getNumElements ()) return;
  Type *f = st->getElementType (0);
  if (auto *at = dyn_cast<ArrayType> (f)) { if (flatNum (at) > 0 && DL->getTypeAllocSize (at) > 0) { headSplit.insert (st); markHead (flatElem (at)); } }
  else markHead (f);
}
static void scanTy (Type *t)
{
  if (!t->isSized () || !scanned.insert (t).second) return;
  if (auto *at = dyn_cast<ArrayType> (t)) { markHead (flatElem (at)); scanTy (flatElem (at)); }
  else if (auto *st = dyn_cast<StructType> (t)) for (Type *e : st->elements ()) scanTy (e);
}
static bool splitHead (Type *st) { return headSplit.count (st); }

static S ty (Type *t)
{
  if (t->isVoidTy ()) return "void";
  if (t->isIntegerTy ()) return intT (t->getIntegerBitWidth (), false);
  if (t->isFloatTy ()) return "float";
  if (t->isDoubleTy ()) return "double";
  if (t->isX86_FP80Ty ()) return "long double";
  if (t->isPointerTy ()) return "char *";
  auto it = tname.find (t);
  if (it != tname.end ()) return it->second;
  static int cnt = 0;
  if (auto *st = dyn_cast<StructType> (t)) {
    S n = "struct LS" + num (cnt++) + "_" + (st->hasName () ? san (st->getName ()) : S ("anon"));
    tname[t] = n;
    std::ostringstream b;
    if (st->isOpaque () || st->getNumElements () == 0) b << "  char pad;\n";
    else
      for (unsigned i = 0; i < st->getNumElements (); i++) {
        S et = ty (st->getElementType (i));
        if (i == 0 && splitHead (st)) {
          auto *at = cast<ArrayType> (st->getElementType (0));
          S e = ty (flatElem (at));
          b << "  " << e << " f0h;\n";
          if (flatNum (at) > 1) b << "  " << e << " f0t[" << flatNum (at) - 1 << "];\n";
        }
        else if (DL->getTypeAllocSize (st->getElementType (i)) == 0 ) b << "  /* empty */ char f" << i << "[0];\n";
        else b << "  " << et << " f" << i << ";\n";
      }
    tdefs << n << " {\n" << b.str () << "}" << (st->isPacked () ? " __attribute__((packed))" : "") << ";\n";
    return n;
  }
  if (auto *at = dyn_cast<ArrayType> (t)) {
    S et = ty (flatElem (at));
    S n = "struct LA" + num (cnt++) + "_" + num (flatNum (at));
    tname[t] = n;
    tdefs << n << " { " << et << " a[" << flatNum (at) << "]; };\n";
    return n;
  }
  if (auto *vt = dyn_cast<FixedVectorType> (t)) {
    S et = ty (vt->getElementType ());
    S n = "struct LV" + num (cnt++) + "_" + num (vt->getNumElements ());
    tname[t] = n;
    tdefs << n << " { " << et << " a[" << vt->getNumElements () << "]; };\n";
    return n;
  }
  warn ("unsupported type " + str (t));
  return "int /*unsupported type*/";
}

static S fty (FunctionType *ft)  // function pointer cast type
{
  S r = "(" + ty (ft->getReturnType ()) + " (*)(";
  for (unsigned i = 0; i < ft->getNumParams (); i++) r += (i ? ", " : "") + ty (ft->getParamType (i));
  if (ft->isVarArg ()) r += ft->getNumParams () ? ", ..." : "";
  else if (!ft->getNumParams ()) r += "void";
  return r + "))";
}

// ---------------------------------------------------------------- globals worklist
static std::set<Function *> fseen;
static std::deque<Function *> fwork;
static std::set<GlobalVariable *> gseen;
static std::vector<GlobalVariable *> gorder;
static std::ostringstream gdefs, gdecls;
static std::map<Function *, S> fnames;
static std::set<S> usednames;
static S fname (Function *f)
{
  auto it = fnames.find (f);
  if (it != fnames.end ()) return it->second;
  S n = san (f->getName ());
  if (f->hasLocalLinkage ()) n = "l_" + n;
  while (usednames.count (n)) n += "_";
  usednames.insert (n);
  return fnames[f] = n;
}
static S gname (GlobalVariable *g) { return "g_" + san (g->getName ()) + (g->hasLocalLinkage () ? "_l" : ""); }
static void touchF (Function *f) { if (fseen.insert (f).second) fwork.push_back (f); }
static void touchG (GlobalVariable *g);
static S cst (Constant *c, bool init);

static S gepExpr (Type *src, S base, User::op_iterator ib, User::op_iterator ie, std::function<S (Value *)> ev)
{
  // returns a char* expression
  // first index
  S cur;
  Type *t = src;
  auto I = ib;
  auto isZero = [] (Value *v) { auto *c = dyn_cast<ConstantInt> (v); return c && c->isZero (); };
  auto idx = [&] (Value *v) -> S {
    if (auto *c = dyn_cast<ConstantInt> (v)) return std::to_string (c->getSExtValue ());
    unsigned w = v->getType ()->getIntegerBitWidth ();
    return "(" + intT (w, true) + ")" + ev (v);
  };
  if (std::next (I) == ie) {
    // plain pointer arithmetic
    if (isZero (*I)) return base;
    if (DL->getTypeAllocSize (t) == 0) return base;
    return "((char *)&((" + ty (t) + " *)" + base + ")[" + idx (*I) + "])";
  }
  if (isZero (*I)) cur = "(*(" + ty (t) + " *)" + base + ")";
  else cur = "((" + ty (t) + " *)" + base + ")[" + idx (*I) + "]";
  ++I;
  for (; I != ie; ++I) {
    if (auto *st = dyn_cast<StructType> (t)) {
      unsigned k = cast<ConstantInt> (*I)->getZExtValue ();
      t = st->getElementType (k);
      if (k == 0 && splitHead (st)) {
        cur += ".f0h";
        if (std::next (I) != ie) cur = "(*(" + ty (t) + " *)((char *)&" + cur + "))";
      }
      else cur += ".f" + num (k);
    }
    else if (isa<ArrayType> (t)) {
      S ix;
      for (;; ++I) {
        t = cast<ArrayType> (t)->getElementType ();
        uint64_t stride = flatNum (t);
        if (!isZero (*I)) ix += (ix.empty () ? "" : " + ") + idx (*I) + (stride > 1 ? " * " + std::to_string (stride) : "");
        if (!isa<ArrayType> (t) || std::next (I) == ie) break;
      }
      cur += ".a[" + (ix.empty () ? "0" : ix) + "]";
    }
    else {
      Type *et = cast<VectorType> (t)->getElementType ();
      cur += ".a[" + idx (*I) + "]";
      t = et;
    }
  }
  return "((char *)&" + cur + ")";
}

static S fpLit (const APFloat &f, Type *t)
{
  if (f.isNaN ()) return t->isFloatTy () ? "__builtin_nanf(\"\")" : "__builtin_nan(\"\")";
  if (f.isInfinity ()) return S (f.isNegative () ? "-" : "") + (t->isFloatTy () ? "__builtin_inff()" : "__builtin_inf()");
  double d;
  if (t->isFloatTy ()) d = f.convertToFloat ();
  else if (t->isDoubleTy ()) d = f.convertToDouble ();
  else { bool l; APFloat g = f; g.convert (APFloat::IEEEdouble (), APFloat::rmNearestTiesToEven, &l); d = g.convertToDouble (); }
  char b[64];
  snprintf (b, sizeof b, "%.17g", d);
  S s = b;
  if (s.find_first_of (".e") == S::npos) s += ".0";
  return "(" + s + (t->isFloatTy () ? "f" : "") + ")";
}
static S intLit (const APInt &v)
{
  unsigned w = v.getBitWidth ();
  if (w == 1) return v.isZero () ? "((_Bool)0)" : "((_Bool)1)";
  if (w <= 64) return "((" + intT (w, false) + ")" + std::to_string (v.getZExtValue ()) + (w > 32 ? "ULL" : "U") + ")";
  uint64_t lo = v.extractBitsAsZExtValue (64, 0), hi = v.extractBitsAsZExtValue (w - 64, 64);
  return "((" + intT (w, false) + ")(((unsigned __int128)" + std::to_string (hi) + "ULL << 64) | " + std::to_string (lo) + "ULL))";
}
static std::map<Type *, S> zeroG;
static std::ostringstream zdefs;
static S zeroOf (Type *t, bool undef)
{
  // a global constant (or extern, unconstrained for undef) object of aggregate type
  static int n = 0;
  if (undef) {
    S nm = "undef_agg_" + num (n++);
    zdefs << ty (t) << " " << nm << "(void);\n";
    return nm + "()";
  }
  auto it = zeroG.find (t);
  if (it != zeroG.end ()) return it->second;
  S nm = "zero_agg_" + num (n++);
  S tt = ty (t);
  zdefs << "static const " << tt << " " << nm << ";\n";
  return zeroG[t] = nm;
}
static S undefScalar (Type *t)
{
  static std::map<Type *, S> m;
  auto it = m.find (t);
  if (it != m.end ()) return it->second;
  static int n = 0;
  S nm = "nondet_undef_" + num (n++);
  zdefs << ty (t) << " " << nm << "(void);\n";
  return m[t] = nm + "()";
}

static void flatConst (Constant *c, S &r)
{
  if (auto *at = dyn_cast<ArrayType> (c->getType ())) {
    for (unsigned i = 0; i < at->getNumElements (); i++) flatConst (c->getAggregateElement (i), r);
    return;
  }
  r += (r.empty () ? "" : ",") + cst (c, true);
}
static S cst (Constant *c, bool init)
{
  Type *t = c->getType ();
  if (auto *ci = dyn_cast<ConstantInt> (c)) return intLit (ci->getValue ());
  if (auto *cf = dyn_cast<ConstantFP> (c)) return fpLit (cf->getValueAPF (), t);
  if (isa<ConstantPointerNull> (c)) return "((char *)0)";
  if (isa<UndefValue> (c)) {  // includes poison
    if (init) return t->isAggregateType () || t->isVectorTy () ? "{0}" : t->isPointerTy () ? "((char*)0)" : "0";
    if (t->isAggregateType () || t->isVectorTy ()) return zeroOf (t, true);
    return undefScalar (t);
  }
  if (auto *f = dyn_cast<Function> (c)) { touchF (f); return "((char *)" + fname (f) + ")"; }
  if (auto *g = dyn_cast<GlobalVariable> (c)) { touchG (g); return "((char *)&" + gname (g) + ")"; }
  if (auto *ga = dyn_cast<GlobalAlias> (c)) return cst (ga->getAliasee (), init);
  if (isa<ConstantAggregateZero> (c)) {
    if (init) return "{0}";
    return zeroOf (t, false);
  }
  if (auto *ca = dyn_cast<ConstantDataSequential> (c)) {
    S r = "{{";
    for (unsigned i = 0; i < ca->getNumElements (); i++) r += (i ? "," : "") + cst (ca->getElementAsConstant (i), true);
    r += "}}";
    if (!init) r = "((" + ty (t) + ")" + r + ")";
    return r;
  }
  if (isa<ConstantArray> (c) || isa<ConstantVector> (c)) {
    S r;
    if (isa<ConstantArray> (c)) { flatConst (c, r); r = "{{" + r; }
    else {
    r = "{{";
    for (unsigned i = 0; i < c->getNumOperands (); i++) r += (i ? "," : "") + cst (cast<Constant> (c->getOperand (i)), true);
    }
    r += "}}";
    if (!init) r = "((" + ty (t) + ")" + r + ")";
    return r;
  }
  if (isa<ConstantStruct> (c)) {
    S r = "{";
    for (unsigned i = 0; i < c->getNumOperands (); i++)
     if (i == 0 && splitHead (t)) {
      S f, h; flatConst (cast<Constant> (c->getOperand (0)), f);
      // the first element, then the others
      Constant *e = cast<Constant> (c->getOperand (0));
      while (e->getType ()->isArrayTy ()) e = e->getAggregateElement (0u);
      h = cst (e, true);
      r += h;
      if (f.size () > h.size ()) r += ",{" + f.substr (h.size () + 1) + "}";
     }
     else r += (i ? "," : "") + cst (cast<Constant> (c->getOperand (i)), true);
    r += "}";
    if (!init) r = "((" + ty (t) + ")" + r + ")";
    return r;
  }
  if (auto *ce = dyn_cast<ConstantExpr> (c)) {
    switch (ce->getOpcode ()) {
    case Instruction::GetElementPtr: {
      auto *g = cast<GEPOperator> (ce);
      return gepExpr (g->getSourceElementType (), cst (cast<Constant> (g->getPointerOperand ()), init), g->idx_begin (), g->idx_end (),
                      [&] (Value *v) { return cst (cast<Constant> (v), init); });
    }
    case Instruction::PtrToInt: return "((" + ty (t) + ")(uintptr_t)" + cst (ce->getOperand (0), init) + ")";
    case Instruction::IntToPtr: return "((char *)(uintptr_t)" + cst (ce->getOperand (0), init) + ")";
    case Instruction::BitCast:
    case Instruction::AddrSpaceCast: return cst (ce->getOperand (0), init);
    case Instruction::Sub: return "((" + ty (t) + ")(" + cst (ce->getOperand (0), init) + " - " + cst (ce->getOperand (1), init) + "))";
    case Instruction::Add: return "((" + ty (t) + ")(" + cst (ce->getOperand (0), init) + " + " + cst (ce->getOperand (1), init) + "))";
    case Instruction::Trunc: return "((" + ty (t) + ")" + cst (ce->getOperand (0), init) + ")";
    default: break;
    }
  }
  S s; raw_string_ostream o (s); c->print (o);
  warn ("unsupported constant " + s);
  return "0 /*unsupported*/";
}

// a global that nothing in the linked program can write (its address is only loaded from) keeps its initial value
static bool onlyRead (Value *v)
{
  for (User *u : v->users ()) {
    if (isa<LoadInst> (u)) continue;
    if (isa<GEPOperator> (u)) { if (!onlyRead (u)) return false; continue; }
    return false;
  }
  return true;
}
static bool isConstG (GlobalVariable *g) { return g->isConstant () || (g->hasInitializer () && onlyRead (g)); }

static void touchG (GlobalVariable *g)
{
  if (!gseen.insert (g).second) return;
  S n = gname (g), t = ty (g->getValueType ());
  if (!g->hasInitializer ()) { gdecls << "extern " << t << " " << n << ";\n"; return; }
  gdecls << "static " << (isConstG (g) ? "const " : "") << t << " " << n << ";\n";
  S i = cst (g->getInitializer (), true);
  gdefs << "static " << (isConstG (g) ? "const " : "") << t << " " << n << " = " << i << ";\n";
}

// ---------------------------------------------------------------- functions
struct FE
{
  Function &F;
  std::ostringstream o, decl;
  std::map<Value *, S> names;
  std::map<BasicBlock *, int> bb;
  int n = 0;
  std::set<S> &ext;
  FE (Function &f, std::set<S> &e): F (f), ext (e) {}

  bool inlineable (Instruction *I) { return isa<GetElementPtrInst> (I) || isa<BitCastInst> (I) && I->getType ()->isPointerTy (); }
  S ev (Value *v)
  {
    if (auto *c = dyn_cast<Constant> (v)) return cst (c, false);
    if (auto *g = dyn_cast<GetElementPtrInst> (v))
      if (!g->getType ()->isVectorTy ())
        return gepExpr (g->getSourceElementType (), ev (g->getPointerOperand ()), g->idx_begin (), g->idx_end (),
                        [&] (Value *x) { return ev (x); });
    if (auto *b = dyn_cast<BitCastInst> (v))
      if (b->getType ()->isPointerTy ()) return ev (b->getOperand (0));
    auto it = names.find (v);
    if (it != names.end ()) return it->second;
    if (isa<AllocaInst> (v)) {
      S s = "al" + num (n++);
      auto *a = cast<AllocaInst> (v);
      if (auto *c = dyn_cast<ConstantInt> (a->getArraySize ()); c && c->isOne ()) {
        decl << "  " << ty (a->getAllocatedType ()) << " " << s << ";\n";
        return names[v] = "((char *)&" + s + ")";
      }
      decl << "  char *" << s << ";\n";  // dynamic alloca: see inst()
      return names[v] = s;
    }
    S s = "v" + num (n++);
    names[v] = s;
    if (!isa<Argument> (v)) decl << "  " << ty (v->getType ()) << " " << s << ";\n";
    return s;
  }
  S sg (Value *v) { return "(" + intT (v->getType ()->getIntegerBitWidth (), true) + ")" + ev (v); }
  // load/store lvalue of type t at pointer p
  S lval (Value *p, Type *t)
  {
    if (auto *g = dyn_cast<GlobalVariable> (p))
      if (g->getValueType () == t) { touchG (g); return gname (g); }
    return "*(" + ty (t) + " *)" + ev (p);
  }
  void phis (BasicBlock *from, BasicBlock *to, const S &ind)
  {
    std::vector<std::pair<S, S>> cp;
    for (auto &p : to->phis ()) {
      Value *in = p.getIncomingValueForBlock (from);
      if (isa<UndefValue> (in)) continue;  // leave as is: any value
      cp.push_back ({ ev (&p), ev (in) });
      if (cp.back ().first == cp.back ().second) cp.pop_back ();
    }
    if (cp.size () == 1) o << ind << cp[0].first << " = " << cp[0].second << ";\n";
    else if (cp.size () > 1) {
      o << ind << "{";
      int k = 0;
      std::vector<PHINode *> ps;
      for (auto &c : cp) o << " __typeof__(" << c.first << ") t" << k++ << " = " << c.second << ";";
      k = 0;
      for (auto &c : cp) o << " " << c.first << " = t" << k++ << ";";
      o << " }\n";
    }
  }
  void br (BasicBlock *from, BasicBlock *to, const S &ind = "  ")
  {
    phis (from, to, ind);
    o << ind << "goto B" << bb[to] << ";\n";
  }
  void set (Instruction &I, const S &e)
  {
    if (I.getType ()->isVoidTy ()) o << "  " << e << ";\n";
    else if (I.use_empty () && !isa<CallBase> (I)) return;
    else o << "  " << ev (&I) << " = " << e << ";\n";
  }
  void call (CallBase &C)
  {
    Value *cv = C.getCalledOperand ()->stripPointerCasts ();
    if (auto *ga = dyn_cast<GlobalAlias> (cv)) cv = ga->getAliaseeObject ();
    Function *f = dyn_cast<Function> (cv);
    auto A = [&] (unsigned i) { return ev (C.getArgOperand (i)); };
    auto T = [&] { return ty (C.getType ()); };
    if (f && f->isIntrinsic ()) {
      unsigned w = C.getType ()->isIntegerTy () ? C.getType ()->getIntegerBitWidth () : 0;
      auto SG = [&] (unsigned i) { return sg (C.getArgOperand (i)); };
      switch (f->getIntrinsicID ()) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
      case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
      case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::prefetch: return;
      case Intrinsic::stacksave: set (C, "(char*)0"); return;
      case Intrinsic::memcpy: case Intrinsic::memmove: {
        if (auto *n = dyn_cast<ConstantInt> (C.getArgOperand (2))) {
          uint64_t k = n->getZExtValue ();
          if (!k) return;
          // typed copy when the destination/source object has exactly this size
          S t;
          auto typeOf = [&] (Value *v) -> Type * { return pointeeOfSize (v, k, 5); };
          Type *tt = typeOf (C.getArgOperand (0));
          if (!tt) tt = typeOf (C.getArgOperand (1));
          if (tt && tt->isSized () ) { o << "  *(" << ty (tt) << " *)" << A (0) << " = *(" << ty (tt) << " *)" << A (1) << ";\n"; return; }
          if (k <= 4096) {
            static std::set<uint64_t> b;
            if (b.insert (k).second) tdefs << "struct LB" << k << " { uint8_t a[" << k << "]; };\n";
            o << "  *(struct LB" << k << " *)" << A (0) << " = *(struct LB" << k << " *)" << A (1) << ";\n";
            return;
          }
        }
        // size not constant: word copies for small sizes (CBMC handles copies of symbolic size badly)
        static bool w = false;
        if (!w) { w = true; for (int k = 1; k <= 8; k++) tdefs << "struct LW" << k << " { uint32_t a[" << k << "]; };\n"; }
        o << "  switch ((size_t) (" << A (2) << ")) { case 0: break;";
        for (int k = 1; k <= 8; k++) o << " case " << 4 * k << ": *(struct LW" << k << " *)" << A (0) << " = *(struct LW" << k << " *)" << A (1) << "; break;";
        o << " default: __CPROVER_assert (0, \"extraction: copy of a size that is neither constant nor a small number of words\"); __CPROVER_assume (0); }\n";
        return;
      }
      case Intrinsic::memset: {
        if (auto *n = dyn_cast<ConstantInt> (C.getArgOperand (2))) {
          uint64_t k = n->getZExtValue ();
          if (!k) return;
          auto *val = dyn_cast<ConstantInt> (C.getArgOperand (1));
          Value *v = C.getArgOperand (0)->stripPointerCasts ();
          Type *tt = nullptr;
          if (auto *a = dyn_cast<AllocaInst> (v)) tt = a->getAllocatedType ();
          else if (auto *g = dyn_cast<GEPOperator> (v)) tt = g->getResultElementType ();
          if (val && val->isZero () && tt && DL->getTypeAllocSize (tt) == k && (tt->isAggregateType ())) {
            o << "  *(" << ty (tt) << " *)" << A (0) << " = " << zeroOf (tt, false) << ";\n";
            return;
          }
        }
        o << "  memset(" << A (0) << ", " << A (1) << ", " << A (2) << ");\n";
        return;
      }
      case Intrinsic::smax: set (C, "(" + SG (0) + " > " + SG (1) + ") ? " + A (0) + " : " + A (1)); return;
      case Intrinsic::smin: set (C, "(" + SG (0) + " < " + SG (1) + ") ? " + A (0) + " : " + A (1)); return;
      case Intrinsic::umax: set (C, "(" + A (0) + " > " + A (1) + ") ? " + A (0) + " : " + A (1)); return;
      case Intrinsic::umin: set (C, "(" + A (0) + " < " + A (1) + ") ? " + A (0) + " : " + A (1)); return;
      case Intrinsic::abs: set (C, "(" + SG (0) + " < 0) ? (" + T () + ")-" + A (0) + " : " + A (0)); return;
      case Intrinsic::fabs: set (C, S (C.getType ()->isFloatTy () ? "fabsf(" : "fabs(") + A (0) + ")"); return;
      case Intrinsic::sqrt: set (C, S (C.getType ()->isFloatTy () ? "sqrtf(" : "sqrt(") + A (0) + ")"); return;
      case Intrinsic::floor: set (C, S ("floor(") + A (0) + ")"); return;
      case Intrinsic::ceil: set (C, S ("ceil(") + A (0) + ")"); return;
      case Intrinsic::fmuladd: set (C, A (0) + " * " + A (1) + " + " + A (2)); return;
      case Intrinsic::ctpop: set (C, "(" + T () + ")__builtin_popcountll(" + A (0) + ")"); return;
      case Intrinsic::ctlz: set (C, "(" + A (0) + " == 0) ? (" + T () + ")" + num (w) + " : (" + T () + ")(__builtin_clzll((uint64_t)" + A (0) + ") - " + num (64 - w) + ")"); return;
      case Intrinsic::cttz: set (C, "(" + A (0) + " == 0) ? (" + T () + ")" + num (w) + " : (" + T () + ")__builtin_ctzll((uint64_t)" + A (0) + ")"); return;
      case Intrinsic::expect: set (C, A (0)); return;
      case Intrinsic::is_constant: set (C, "0"); return;
      case Intrinsic::objectsize: set (C, "(" + T () + ")-1"); return;
      case Intrinsic::eh_typeid_for: set (C, "0"); return;
      case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap:
        o << "  __CPROVER_assert(0, \"abort: trap reached\"); __CPROVER_assume(0);\n"; return;
      case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
      case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
        auto id = f->getIntrinsicID ();
        bool s = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
        S op = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? "plus" : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? "minus" : "mult";
        S oc = op == "plus" ? "+" : op == "minus" ? "-" : "*";
        S x = s ? SG (0) : A (0), y = s ? SG (1) : A (1);
        S v = ev (&C);
        o << "  " << v << ".f0 = " << A (0) << " " << oc << " " << A (1) << ";\n";
        o << "  " << v << ".f1 = __CPROVER_overflow_" << op << "(" << x << ", " << y << ");\n";
        return;
      }
      case Intrinsic::fshl: {
        S W = num (w);
        set (C, "(" + T () + ")((" + A (2) + " % " + W + ") ? ((" + A (0) + " << (" + A (2) + " % " + W + ")) | (" + A (1) + " >> (" + W + " - " + A (2) + " % " + W + "))) : " + A (0) + ")");
        return;
      }
      default:
        warn ("unsupported intrinsic " + f->getName ().str ());
        o << "  __CPROVER_assert(0, \"extraction: unsupported intrinsic " << f->getName ().str () << "\");\n";
        if (!C.getType ()->isVoidTy ()) ev (&C);
        return;
      }
    }
    if (isa<InlineAsm> (C.getCalledOperand ())) {
      o << "  /* inline asm dropped */\n";
      if (!C.getType ()->isVoidTy ()) ev (&C);
      return;
    }
    S args;
    FunctionType *ft = C.getFunctionType ();
    bool vararg = ft->isVarArg ();
    for (unsigned i = 0; i < C.arg_size (); i++) {
      if (f && f->isVarArg () && i >= f->getFunctionType ()->getNumParams () && f->isDeclaration ()) break;  // varargs of externals dropped
      S a = A (i);
      if (C.isByValArgument (i)) {
        // callee gets a private copy
        S s = "bv" + num (n++);
        Type *bt = C.getParamByValType (i);
        decl << "  " << ty (bt) << " " << s << ";\n";
        o << "  " << s << " = *(" << ty (bt) << " *)" << a << ";\n";
        a = "((char *)&" + s + ")";
      }
      args += (args.empty () ? "" : ", ") + a;
    }
    S callee;
    if (f) {
      touchF (f);
      callee = fname (f);
      if (f->getFunctionType () != ft) callee = "(" + fty (ft) + fname (f) + ")";
    }
    else callee = "(" + fty (ft) + ev (C.getCalledOperand ()) + ")";
    S e = callee + "(" + args + ")";
    if (C.getType ()->isVoidTy () || C.use_empty ()) o << "  " << e << ";\n";
    else o << "  " << ev (&C) << " = " << e << ";\n";
  }
  S idxPath (Type *t, ArrayRef<unsigned> ix)
  {
    S r;
    for (unsigned q = 0; q < ix.size (); q++) {
      unsigned k = ix[q];
      if (isa<ArrayType> (t)) {
        uint64_t flat = 0;
        for (;; q++) {
          t = cast<ArrayType> (t)->getElementType ();
          flat += ix[q] * flatNum (t);
          if (!isa<ArrayType> (t)) break;
          if (q + 1 == ix.size ()) { warn ("array value inside an array value"); break; }
        }
        r += ".a[" + num (flat) + "]";
        continue;
      }
      if (splitHead (t) && k == 0) {
        if (q + 1 == ix.size ()) warn ("array value at the head of a struct value");
        t = cast<StructType> (t)->getElementType (0);
        uint64_t flat = 0;
        for (q++; q < ix.size () && isa<ArrayType> (t); q++) { t = cast<ArrayType> (t)->getElementType (); flat += ix[q] * flatNum (t); }
        q--;
        r += flat ? ".f0t[" + num (flat - 1) + "]" : ".f0h";
        continue;
      }
      if (auto *st = dyn_cast<StructType> (t)) { r += ".f" + num (k); t = st->getElementType (k); }
      else { r += ".a[" + num (k) + "]"; t = cast<ArrayType> (t)->getElementType (); }
    }
    return r;
  }
  void inst (Instruction &I)
  {
    Type *t = I.getType ();
    if (auto *b = dyn_cast<BinaryOperator> (&I)) {
      Value *x = b->getOperand (0), *y = b->getOperand (1);
      if (t->isVectorTy ()) { warn ("vector op"); o << "  __CPROVER_assert(0, \"extraction: vector operation\");\n"; ev (&I); return; }
      S T = ty (t);
      S X = ev (x), Y = ev (y), op;
      if (t->isFloatingPointTy ()) {
        switch (b->getOpcode ()) {
        case Instruction::FAdd: op = "+"; break;
        case Instruction::FSub: op = "-"; break;
        case Instruction::FMul: op = "*"; break;
        case Instruction::FDiv: op = "/"; break;
        default: set (I, "fmod(" + X + ", " + Y + ")"); return;
        }
        set (I, X + " " + op + " " + Y);
        return;
      }
      unsigned w = t->getIntegerBitWidth ();
      bool nsw = isa<OverflowingBinaryOperator> (b) && cast<OverflowingBinaryOperator> (b)->hasNoSignedWrap ();
      S st = "(" + intT (w, true) + ")";
      // a C pointer difference: (ptrtoint p - ptrtoint q) /exact size
      if (b->getOpcode () == Instruction::Sub && w == 64 && isa<PtrToIntInst> (x) && isa<PtrToIntInst> (y)) {
        bool diff = !b->use_empty ();
        for (User *u : b->users ()) { auto *d = dyn_cast<BinaryOperator> (u); diff = diff && d && d->getOpcode () == Instruction::SDiv && d->isExact (); }
        if (diff) { set (I, "(" + T + ")((char *)" + ev (cast<PtrToIntInst> (x)->getOperand (0)) + " - (char *)" + ev (cast<PtrToIntInst> (y)->getOperand (0)) + ")"); return; }
      }
      switch (b->getOpcode ()) {
      case Instruction::Add: op = "+"; break;
      case Instruction::Sub: op = "-"; break;
      case Instruction::Mul: op = "*"; break;
      case Instruction::And: op = "&"; nsw = false; break;
      case Instruction::Or: op = "|"; nsw = false; break;
      case Instruction::Xor: op = "^"; nsw = false; break;
      case Instruction::UDiv: op = "/"; break;
      case Instruction::URem: op = "%"; break;
      case Instruction::SDiv: set (I, "(" + T + ")(" + st + X + " / " + st + Y + ")"); return;
      case Instruction::SRem: set (I, "(" + T + ")(" + st + X + " % " + st + Y + ")"); return;
      case Instruction::Shl: set (I, "(" + T + ")(" + X + " << " + Y + ")"); return;
      case Instruction::LShr: set (I, "(" + T + ")(" + X + " >> " + Y + ")"); return;
      case Instruction::AShr: set (I, "(" + T + ")(" + st + X + " >> " + Y + ")"); return;
      default: break;
      }
      if (nsw && w >= 32 && (op == "+" || op == "-" || op == "*")) set (I, "(" + T + ")(" + st + X + " " + op + " " + st + Y + ")");
      else set (I, "(" + T + ")(" + X + " " + op + " " + Y + ")");
      return;
    }
    switch (I.getOpcode ()) {
    case Instruction::FNeg: set (I, "-" + ev (I.getOperand (0))); return;
    case Instruction::Alloca: {
      auto &a = cast<AllocaInst> (I);
      auto *c = dyn_cast<ConstantInt> (a.getArraySize ());
      S nm = ev (&I);
      if (!(c && c->isOne ()))
        o << "  " << nm << " = __CPROVER_allocate((size_t)" << ev (a.getArraySize ()) << " * " << DL->getTypeAllocSize (a.getAllocatedType ()).getFixedValue () << ", 0);\n";
      return;
    }
    case Instruction::Load: set (I, lval (I.getOperand (0), t)); return;
    case Instruction::Store: {
      auto &s = cast<StoreInst> (I);
      if (isa<UndefValue> (s.getValueOperand ()) && s.getValueOperand ()->getType ()->isAggregateType ()) return;
      o << "  " << lval (s.getPointerOperand (), s.getValueOperand ()->getType ()) << " = " << ev (s.getValueOperand ()) << ";\n";
      return;
    }
    case Instruction::GetElementPtr: return;  // inlined at uses
    case Instruction::ICmp: {
      auto &c = cast<ICmpInst> (I);
      S op;
      switch (c.getPredicate ()) {
      case ICmpInst::ICMP_EQ: op = "=="; break;
      case ICmpInst::ICMP_NE: op = "!="; break;
      case ICmpInst::ICMP_UGT: case ICmpInst::ICMP_SGT: op = ">"; break;
      case ICmpInst::ICMP_UGE: case ICmpInst::ICMP_SGE: op = ">="; break;
      case ICmpInst::ICMP_ULT: case ICmpInst::ICMP_SLT: op = "<"; break;
      default: op = "<="; break;
      }
      bool s = c.isSigned () && c.getOperand (0)->getType ()->isIntegerTy ();
      if (s) set (I, sg (c.getOperand (0)) + " " + op + " " + sg (c.getOperand (1)));
      else set (I, ev (c.getOperand (0)) + " " + op + " " + ev (c.getOperand (1)));
      return;
    }
    case Instruction::FCmp: {
      auto &c = cast<FCmpInst> (I);
      S x = ev (c.getOperand (0)), y = ev (c.getOperand (1));
      S un = "(" + x + " != " + x + " || " + y + " != " + y + ")";
      switch (c.getPredicate ()) {
      case FCmpInst::FCMP_OEQ: set (I, x + " == " + y); return;
      case FCmpInst::FCMP_OGT: set (I, x + " > " + y); return;
      case FCmpInst::FCMP_OGE: set (I, x + " >= " + y); return;
      case FCmpInst::FCMP_OLT: set (I, x + " < " + y); return;
      case FCmpInst::FCMP_OLE: set (I, x + " <= " + y); return;
      case FCmpInst::FCMP_ONE: set (I, "(" + x + " < " + y + " || " + x + " > " + y + ")"); return;
      case FCmpInst::FCMP_UNE: set (I, x + " != " + y); return;
      case FCmpInst::FCMP_ORD: set (I, "!" + un); return;
      case FCmpInst::FCMP_UNO: set (I, un); return;
      case FCmpInst::FCMP_UEQ: set (I, un + " || " + x + " == " + y); return;
      case FCmpInst::FCMP_UGT: set (I, un + " || " + x + " > " + y); return;
      case FCmpInst::FCMP_UGE: set (I, un + " || " + x + " >= " + y); return;
      case FCmpInst::FCMP_ULT: set (I, un + " || " + x + " < " + y); return;
      case FCmpInst::FCMP_ULE: set (I, un + " || " + x + " <= " + y); return;
      case FCmpInst::FCMP_TRUE: set (I, "1"); return;
      default: set (I, "0"); return;
      }
    }
    case Instruction::ZExt: set (I, "(" + ty (t) + ")" + ev (I.getOperand (0))); return;
    case Instruction::Trunc:
      if (t->isIntegerTy (1)) set (I, "(_Bool)(" + ev (I.getOperand (0)) + " & 1)");
      else set (I, "(" + ty (t) + ")" + ev (I.getOperand (0)));
      return;
    case Instruction::SExt:
      if (I.getOperand (0)->getType ()->isIntegerTy (1)) set (I, ev (I.getOperand (0)) + " ? (" + ty (t) + ")-1 : (" + ty (t) + ")0");
      else set (I, "(" + ty (t) + ")(" + intT (t->getIntegerBitWidth (), true) + ")" + sg (I.getOperand (0)));
      return;
    case Instruction::SIToFP: set (I, "(" + ty (t) + ")" + sg (I.getOperand (0))); return;
    case Instruction::UIToFP: set (I, "(" + ty (t) + ")" + ev (I.getOperand (0))); return;
    case Instruction::FPToSI: set (I, "(" + ty (t) + ")(" + intT (t->getIntegerBitWidth (), true) + ")" + ev (I.getOperand (0))); return;
    case Instruction::FPToUI: set (I, "(" + ty (t) + ")" + ev (I.getOperand (0))); return;
    case Instruction::FPExt: case Instruction::FPTrunc: set (I, "(" + ty (t) + ")" + ev (I.getOperand (0))); return;
    case Instruction::PtrToInt: set (I, "(" + ty (t) + ")(uintptr_t)" + ev (I.getOperand (0))); return;
    case Instruction::IntToPtr: set (I, "(char *)(uintptr_t)" + ev (I.getOperand (0))); return;
    case Instruction::BitCast: {
      if (t->isPointerTy ()) return;
      S s = "bc" + num (n++);
      decl << "  " << ty (I.getOperand (0)->getType ()) << " " << s << ";\n";
      o << "  " << s << " = " << ev (I.getOperand (0)) << ";\n";
      set (I, "*(" + ty (t) + " *)&" + s);
      return;
    }
    case Instruction::Freeze: set (I, ev (I.getOperand (0))); return;
    case Instruction::Select: set (I, ev (I.getOperand (0)) + " ? " + ev (I.getOperand (1)) + " : " + ev (I.getOperand (2))); return;
    case Instruction::PHI: ev (&I); return;
    case Instruction::ExtractValue: {
      auto &e = cast<ExtractValueInst> (I);
      set (I, ev (e.getAggregateOperand ()) + idxPath (e.getAggregateOperand ()->getType (), e.getIndices ()));
      return;
    }
    case Instruction::InsertValue: {
      auto &e = cast<InsertValueInst> (I);
      S v = ev (&I);
      if (!isa<UndefValue> (e.getAggregateOperand ())) o << "  " << v << " = " << ev (e.getAggregateOperand ()) << ";\n";
      o << "  " << v << idxPath (t, e.getIndices ()) << " = " << ev (e.getInsertedValueOperand ()) << ";\n";
      return;
    }
    case Instruction::ExtractElement:
      set (I, ev (I.getOperand (0)) + ".a[" + ev (I.getOperand (1)) + "]"); return;
    case Instruction::InsertElement: {
      S v = ev (&I);
      if (!isa<UndefValue> (I.getOperand (0))) o << "  " << v << " = " << ev (I.getOperand (0)) << ";\n";
      o << "  " << v << ".a[" << ev (I.getOperand (2)) << "] = " << ev (I.getOperand (1)) << ";\n";
      return;
    }
    case Instruction::Call: call (cast<CallBase> (I)); return;
    case Instruction::Invoke: {
      call (cast<CallBase> (I));
      br (I.getParent (), cast<InvokeInst> (I).getNormalDest ());
      return;
    }
    case Instruction::Resume: case Instruction::LandingPad:
      o << "  __CPROVER_assume(0); /* unwinding not modelled */\n";
      if (isa<LandingPadInst> (I)) ev (&I);
      return;
    case Instruction::Ret:
      if (I.getNumOperands ()) o << "  return " << ev (I.getOperand (0)) << ";\n";
      else o << "  return;\n";
      return;
    case Instruction::Br: {
      auto &b = cast<BranchInst> (I);
      if (b.isUnconditional ()) { br (I.getParent (), b.getSuccessor (0)); return; }
      o << "  if (" << ev (b.getCondition ()) << ") {\n";
      br (I.getParent (), b.getSuccessor (0), "    ");
      o << "  } else {\n";
      br (I.getParent (), b.getSuccessor (1), "    ");
      o << "  }\n";
      return;
    }
    case Instruction::Switch: {
      auto &s = cast<SwitchInst> (I);
      S v = ev (s.getCondition ());
      bool first = true;
      for (auto &c : s.cases ()) {
        o << "  " << (first ? "" : "else ") << "if (" << v << " == " << intLit (c.getCaseValue ()->getValue ()) << ") {\n";
        br (I.getParent (), c.getCaseSuccessor (), "    ");
        o << "  }\n";
        first = false;
      }
      o << "  {\n";
      br (I.getParent (), s.getDefaultDest (), "    ");
      o << "  }\n";
      return;
    }
    case Instruction::Unreachable:
      o << "  __CPROVER_assert(0, \"abort: unreachable point reached\"); __CPROVER_assume(0);\n";
      if (!F.getReturnType ()->isVoidTy ()) { S z = "rz" + num (n++); decl << "  " << ty (F.getReturnType ()) << " " << z << ";\n"; o << "  return " << z << ";\n"; }
      else o << "  return;\n";
      return;
    case Instruction::AtomicRMW: {
      auto &a = cast<AtomicRMWInst> (I);
      S l = lval (a.getPointerOperand (), a.getValOperand ()->getType ());
      set (I, l);
      S op = a.getOperation () == AtomicRMWInst::Add ? " + " : a.getOperation () == AtomicRMWInst::Sub ? " - " : "";
      if (op.empty ()) o << "  " << l << " = " << ev (a.getValOperand ()) << ";\n";
      else o << "  " << l << " = " << l << op << ev (a.getValOperand ()) << ";\n";
      return;
    }
    case Instruction::Fence: return;
    case Instruction::VAArg:
    default: {
      S s; raw_string_ostream oo (s); I.print (oo);
      warn ("unsupported instruction " + s);
      o << "  __CPROVER_assert(0, \"extraction: unsupported instruction\");\n";
      if (!t->isVoidTy ()) ev (&I);
    }
    }
  }
  S proto (bool names_)
  {
    S r = ty (F.getReturnType ()) + " " + fname (&F) + "(";
    bool first = true;
    for (auto &a : F.args ()) {
      r += S (first ? "" : ", ") + ty (a.getType ()) + (names_ ? " " + ev (&a) : S (""));
      first = false;
    }
    if (F.isVarArg ()) r += first ? "" : ", ...";
    else if (first) r += "void";
    return r + ")";
  }
  S emit ()
  {
    int k = 0;
    for (auto &b : F) bb[&b] = k++;
    S p = proto (true);
    for (auto &b : F) {
      if (b.isLandingPad ()) { o << "B" << bb[&b] << ":;\n  __CPROVER_assume(0);\n"; S d; if (!F.getReturnType ()->isVoidTy ()) { S z = "rz" + num (n++); decl << "  " << ty (F.getReturnType ()) << " " << z << ";\n"; o << "  return " << z << ";\n"; } else o << "  return;\n"; continue; }
      if (&b != &F.getEntryBlock ()) o << "B" << bb[&b] << ":;\n";
      for (auto &I : b) inst (I);
    }
    return p + "\n{\n" + decl.str () + o.str () + "}\n";
  }
};

static std::map<S, S> policy, extkind;
static S js (const S &s)
{
  S r = "\"";
  for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char) c < 32) r += ' '; else r += c; }
  return r + "\"";
}

int main (int argc, char **argv)
{
  if (argc < 4) { std::cerr << "usage: ll2c in.bc out.c roots...\n"; return 2; }
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile (argv[1], err, ctx);
  if (!M) { err.print ("ll2c", errs ()); return 2; }
  DL = &M->getDataLayout ();
  for (auto &g : M->globals ()) scanTy (g.getValueType ());
  for (auto &f : *M)
    for (auto &b : f)
      for (auto &i : b) {
        if (auto *a = dyn_cast<AllocaInst> (&i)) scanTy (a->getAllocatedType ());
        if (auto *g = dyn_cast<GetElementPtrInst> (&i)) scanTy (g->getSourceElementType ());
      }
  if (const char *pf = getenv ("LL2C_POLICY")) {
    std::ifstream in (pf);
    S l;
    while (std::getline (in, l)) {
      std::istringstream is (l);
      S a, b;
      if (is >> a >> b && a[0] != '#') policy[a] = b;
    }
  }
  // callees replaced by their contracts (modular verification): LL2C_REPLACE="f=stub;..."
  std::vector<S> replaced;
  if (const char *rp = getenv ("LL2C_REPLACE")) {
    std::istringstream is (rp);
    S l;
    while (std::getline (is, l, ';')) {
      size_t k = l.find ('=');
      if (k == S::npos) continue;
      S nm = l.substr (0, k);
      Function *g = M->getFunction (l.substr (k + 1));
      if (!g) continue;
      bool any = false;
      for (Function &f : *M) { // static functions of several files with the same name are numbered by the linker: name.N
        S fn = f.getName ().str ();
        if (fn != nm && !(fn.compare (0, nm.size () + 1, nm + ".") == 0 && fn.find_first_not_of ("0123456789", nm.size () + 1) == S::npos)) continue;
        if (f.getFunctionType () != g->getFunctionType ()) continue;
        f.replaceAllUsesWith (g);
        any = true;
      }
      if (any) replaced.push_back (nm);
    }
  }
  std::vector<S> missing;
  for (int i = 3; i < argc; i++) {
    Function *f = M->getFunction (argv[i]);
    if (!f || f->isDeclaration ()) { missing.push_back (argv[i]); continue; }
    touchF (f);
  }
  std::ostringstream protos, bodies;
  std::set<S> ext;
  std::vector<S> done, externs;
  while (!fwork.empty ()) {
    Function *f = fwork.front ();
    fwork.pop_front ();
    if (f->isIntrinsic ()) continue;
    static const std::set<S> cprover_lib = { "memcpy", "memset", "memmove", "malloc", "free", "calloc", "realloc", "abs", "labs", "strlen", "memcmp", "strcmp", "fabs", "sqrt", "floor", "ceil", "fmod" };
    if (f->isDeclaration () || f->hasAvailableExternallyLinkage ()) {
      externs.push_back (fname (f));
      if (cprover_lib.count (fname (f))) continue;
      FE e (*f, ext);
      S pr = e.proto (true), nm = fname (f), kind = "unmodelled";
      auto it = policy.find (f->getName ().str ());
      if (it != policy.end ()) kind = it->second;
      else for (auto &p : policy) if (p.first.back () == '*' && f->getName ().starts_with (p.first.substr (0, p.first.size () - 1))) kind = p.second;
      extkind[nm] = kind;
      S body = "{ ";
      if (kind == "abort") body += "__CPROVER_assert(0, \"abort: " + nm + " called\"); __CPROVER_assume(0); ";
      else if (kind == "unmodelled") body += "__CPROVER_assert(0, \"extraction: unmodelled external " + nm + " called\"); __CPROVER_assume(0); ";
      if (!f->getReturnType ()->isVoidTy ()) body += ty (f->getReturnType ()) + " r; return r; ";
      if (kind == "extern") protos << e.proto (false) << ";\n";
      else { protos << e.proto (false) << ";\n"; bodies << pr << " " << body << "}\n"; }
      continue;
    }
    FE e (*f, ext);
    S b = e.emit ();
    FE e2 (*f, ext);
    protos << e2.proto (false) << ";\n";
    bodies << b << "\n";
    done.push_back (f->getName ().str ());
  }
  std::ofstream out (argv[2]);
  out << "/* generated by ll2c from LLVM IR of /repo's sources; do not edit */\n"
         "#include <stdint.h>\n#include <stddef.h>\n#include <string.h>\n#include <stdlib.h>\n#include <math.h>\n";
  out << tdefs.str () << zdefs.str () << protos.str () << gdecls.str () << gdefs.str () << bodies.str ();
  out.close ();
  std::cout << "{\"functions\": [";
  for (size_t i = 0; i < done.size (); i++) std::cout << (i ? ", " : "") << js (done[i]);
  std::cout << "], \"externals\": [";
  for (size_t i = 0; i < externs.size (); i++) std::cout << (i ? ", " : "") << js (externs[i] + ":" + (extkind.count (externs[i]) ? extkind[externs[i]] : S ("cprover-library")));
  std::cout << "], \"missing_roots\": [";
  for (size_t i = 0; i < missing.size (); i++) std::cout << (i ? ", " : "") << js (missing[i]);
  std::cout << "], \"replaced\": [";
  for (size_t i = 0; i < replaced.size (); i++) std::cout << (i ? ", " : "") << js (replaced[i]);
  std::cout << "], \"warnings\": [";
  for (size_t i = 0; i < warnings.size (); i++) std::cout << (i ? ", " : "") << js (warnings[i]);
  std::cout << "]}\n";
  return 0;
}

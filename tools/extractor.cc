// Dumps LLVM IR of one translation unit as compact JSON facts.
// usage: extractor in.bc out.json
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/Path.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
#include <string>
using namespace llvm;
typedef json::Array JA;
typedef json::Object JO;

static const DataLayout *DL;
static std::string absname(const DIFile *f) {
    if (!f) return "";
    std::string fn = f->getFilename().str();
    if (!fn.empty() && fn[0] == '/') return fn;
    SmallString<256> p(f->getDirectory());
    sys::path::append(p, fn);
    sys::path::remove_dots(p, true);
    return p.str().str();
}
static std::string ditype(const DIType *t, int depth = 0) {
    if (!t) return "void";
    if (depth > 8) return "?";
    if (auto *b = dyn_cast<DIBasicType>(t)) return b->getName().str();
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
	switch (d->getTag()) {
	case dwarf::DW_TAG_typedef: return d->getName().str();
	case dwarf::DW_TAG_pointer_type: return ditype(d->getBaseType(), depth + 1) + " *";
	case dwarf::DW_TAG_reference_type: return ditype(d->getBaseType(), depth + 1) + " &";
	case dwarf::DW_TAG_rvalue_reference_type: return ditype(d->getBaseType(), depth + 1) + " &&";
	case dwarf::DW_TAG_const_type: return "const " + ditype(d->getBaseType(), depth + 1);
	case dwarf::DW_TAG_volatile_type: return "volatile " + ditype(d->getBaseType(), depth + 1);
	default: return ditype(d->getBaseType(), depth + 1);
	}
    }
    if (auto *c = dyn_cast<DICompositeType>(t)) {
	if (c->getTag() == dwarf::DW_TAG_array_type) return ditype(c->getBaseType(), depth + 1) + " []";
	std::string n = c->getName().str();
	switch (c->getTag()) {
	case dwarf::DW_TAG_structure_type: return "struct " + n;
	case dwarf::DW_TAG_class_type: return "class " + n;
	case dwarf::DW_TAG_enumeration_type: return "enum " + n;
	case dwarf::DW_TAG_union_type: return "union " + n;
	default: return n;
	}
    }
    if (isa<DISubroutineType>(t)) return "fn";
    return "?";
}
static std::string tystr(Type *t) {
    std::string s; raw_string_ostream o(s);
    if (auto *st = dyn_cast<StructType>(t)) { if (st->hasName()) return "%" + st->getName().str(); }
    t->print(o, false, true); return s;
}
static bool cstr(const Constant *c, std::string &out) {
    if (auto *gv = dyn_cast<GlobalVariable>(c)) {
	if (!gv->hasInitializer() || !gv->isConstant()) return false;
	if (!gv->hasPrivateLinkage()) return false;
	if (auto *da = dyn_cast<ConstantDataArray>(gv->getInitializer())) {
	    if (da->isString()) { out = da->getAsString().str(); 
		while (!out.empty() && out.back() == 0) out.pop_back();
		return true; }
	}
	if (isa<ConstantAggregateZero>(gv->getInitializer()) && gv->getValueType()->isArrayTy() && gv->getValueType()->getArrayElementType()->isIntegerTy(8)) { out = ""; return true; }
    }
    return false;
}
static std::string san(std::string s) { return json::isUTF8(s) ? s : json::fixUTF8(s); }

struct FnCtx {
    std::map<const Value *, int> id;
    std::map<const BasicBlock *, int> bb;
};
static json::Value constant(const Constant *c);
static json::Value operand(FnCtx &x, const Value *v) {
    if (auto *a = dyn_cast<Argument>(v)) return JA{ "a", (int64_t) a->getArgNo() };
    if (auto *b = dyn_cast<BasicBlock>(v)) return JA{ "b", x.bb[b] };
    if (auto *c = dyn_cast<Constant>(v)) return constant(c);
    if (isa<Instruction>(v)) return JA{ "v", x.id[v] };
    return JA{ "?" };
}
static json::Value constant(const Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
	if (ci->getBitWidth() <= 64) return JA{ "c", ci->getBitWidth() == 1 ? (int64_t) ci->getZExtValue() : ci->getSExtValue() };
	return JA{ "u" };
    }
    if (isa<ConstantPointerNull>(c)) return JA{ "n" };
    if (isa<UndefValue>(c)) return JA{ "u" };
    std::string s;
    if (cstr(c, s)) return JA{ "s", san(s) };
    if (auto *f = dyn_cast<Function>(c)) return JA{ "f", f->getName().str() };
    if (auto *g = dyn_cast<GlobalValue>(c)) return JA{ "g", g->getName().str(), 0 };
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
	if (ce->getOpcode() == Instruction::GetElementPtr) {
	    auto *gep = cast<GEPOperator>(ce);
	    APInt off(64, 0);
	    if (gep->accumulateConstantOffset(*DL, off)) {
		const Value *b = gep->getPointerOperand();
		if (auto *bc = dyn_cast<Constant>(b)) {
		    if (cstr(bc, s)) { size_t o = off.getZExtValue(); return JA{ "s", san(o <= s.size() ? s.substr(o) : "") }; }
		    if (isa<GlobalValue>(bc)) return JA{ "g", bc->getName().str(), (int64_t) off.getSExtValue() };
		}
	    }
	}
	if (ce->isCast()) return constant(ce->getOperand(0));
	return JA{ "?" };
    }
    if (isa<ConstantAggregateZero>(c)) return JA{ "z" };
    if (auto *cs = dyn_cast<ConstantAggregate>(c)) {
	JA a;
	const StructLayout *sl = nullptr;
	if (auto *st = dyn_cast<StructType>(c->getType())) sl = DL->getStructLayout(st);
	for (unsigned i = 0; i < cs->getNumOperands(); i++) {
	    int64_t off = sl ? (int64_t) sl->getElementOffset(i) : (int64_t) (i * DL->getTypeAllocSize(cs->getOperand(i)->getType()));
	    a.push_back(JA{ off, constant(cs->getOperand(i)) });
	}
	return JA{ "agg", std::move(a) };
    }
    if (auto *da = dyn_cast<ConstantDataSequential>(c)) {
	if (da->isString()) { s = da->getAsString().str(); while (!s.empty() && s.back() == 0) s.pop_back(); return JA{ "str", san(s) }; }
	JA a;
	for (unsigned i = 0; i < da->getNumElements() && i < 4096; i++) {
	    if (da->getElementType()->isIntegerTy())
		a.push_back(JA{ (int64_t) (i * da->getElementByteSize()), JA{ "c", (int64_t) (da->getElementByteSize() == 8 ? (int64_t) da->getElementAsInteger(i) : da->getElementAsAPInt(i).getSExtValue()) } });
	}
	return JA{ "agg", std::move(a) };
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) { return JA{ "fp", cf->getValueAPF().convertToDouble() }; }
    return JA{ "?" };
}
static const char *pred(CmpInst::Predicate p) {
    return CmpInst::getPredicateName(p).data();
}
int main(int argc, char **argv) {
    LLVMContext ctx; SMDiagnostic err;
    auto m = parseIRFile(argv[1], err, ctx);
    if (!m) { err.print(argv[0], errs()); return 1; }
    DL = &m->getDataLayout();
    std::string root = argc > 3 ? argv[3] : "/repo";
    JO top; JA fns, decls, globs; JO structs, enums;
    DebugInfoFinder finder; finder.processModule(*m);
    for (auto *t : finder.types()) {
	auto *c = dyn_cast<DICompositeType>(t);
	if (!c) continue;
	if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
	    JO e;
	    for (auto *el : c->getElements()) if (auto *en = dyn_cast<DIEnumerator>(el)) e[en->getName().str()] = (int64_t) en->getValue().getSExtValue();
	    std::string nm = c->getName().str();
	    if (nm.empty()) nm = "anon@" + std::to_string(c->getLine());
	    // only repo enums
	    if (absname(c->getFile()).rfind(root, 0) == 0) enums[nm] = std::move(e);
	} else if (c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_class_type || c->getTag() == dwarf::DW_TAG_union_type) {
	    if (absname(c->getFile()).rfind(root, 0) != 0 && c->getName() != "_GMimeSignature") continue;
	    JA f;
	    for (auto *el : c->getElements()) if (auto *d = dyn_cast<DIDerivedType>(el)) if (d->getTag() == dwarf::DW_TAG_member)
		f.push_back(JA{ (int64_t) d->getOffsetInBits() / 8, d->getName().str(), ditype(d->getBaseType()), (int64_t) d->getSizeInBits() / 8 });
	    if (f.empty()) continue;
	    std::string nm = c->getName().str();
	    if (nm.empty()) nm = "anon@" + std::to_string(c->getLine());
	    structs[nm] = JO{ { "fields", std::move(f) }, { "file", absname(c->getFile()) }, { "line", (int64_t) c->getLine() } };
	}
    }
    // typedefs name anonymous structs
    for (auto *t : finder.types()) {
	auto *d = dyn_cast<DIDerivedType>(t);
	if (!d || d->getTag() != dwarf::DW_TAG_typedef || !d->getBaseType()) continue;
	if (auto *c = dyn_cast<DICompositeType>(d->getBaseType())) {
	    if (c->getName().empty() && absname(c->getFile()).rfind(root, 0) == 0) {
		if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
		    JO e;
		    for (auto *el : c->getElements()) if (auto *en = dyn_cast<DIEnumerator>(el)) e[en->getName().str()] = (int64_t) en->getValue().getSExtValue();
		    enums[d->getName().str()] = std::move(e);
		} else {
		    JA f;
		    for (auto *el : c->getElements()) if (auto *dd = dyn_cast<DIDerivedType>(el)) if (dd->getTag() == dwarf::DW_TAG_member)
			f.push_back(JA{ (int64_t) dd->getOffsetInBits() / 8, dd->getName().str(), ditype(dd->getBaseType()), (int64_t) dd->getSizeInBits() / 8 });
		    structs[d->getName().str()] = JO{ { "fields", std::move(f) }, { "file", absname(c->getFile()) }, { "line", (int64_t) c->getLine() } };
		}
	    }
	}
    }
    for (auto &g : m->globals()) {
	std::string s;
	if (cstr(&g, s)) continue;
	JO o;
	o["name"] = g.getName().str();
	o["const"] = g.isConstant();
	o["internal"] = g.hasLocalLinkage();
	o["decl"] = g.isDeclaration();
	o["tls"] = g.isThreadLocal();
	o["type"] = tystr(g.getValueType());
	o["size"] = (int64_t) (g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 0);
	SmallVector<DIGlobalVariableExpression *, 1> dv; g.getDebugInfo(dv);
	if (!dv.empty()) {
	    auto *v = dv[0]->getVariable();
	    o["dname"] = v->getName().str(); o["file"] = absname(v->getFile()); o["line"] = (int64_t) v->getLine(); o["dtype"] = ditype(v->getType());
	    if (auto *sp = dyn_cast_or_null<DISubprogram>(v->getScope())) o["fnscope"] = sp->getName().str();
	}
	bool want = !dv.empty() && absname(dv[0]->getVariable()->getFile()).rfind(root, 0) == 0;
	if (g.hasInitializer() && (want || g.getName().starts_with("_ZTV") || g.getName().starts_with("__const.") || g.getName().starts_with(".compoundliteral") || (g.hasLocalLinkage() && g.isConstant()))) o["init"] = constant(g.getInitializer());
	globs.push_back(std::move(o));
    }
    for (auto &f : *m) {
	DISubprogram *sp = f.getSubprogram();
	std::string file = sp ? absname(sp->getFile()) : "";
	std::string nm = f.getName().str();
	if (f.isDeclaration() || file.rfind(root, 0) != 0) {
	    bool ext = !f.isDeclaration();
	    if (nm.rfind("llvm.dbg", 0) == 0) continue;
	    bool init = nm.rfind("_GLOBAL__", 0) == 0 || nm.rfind("__cxx_global", 0) == 0;
	    if (!init || f.isDeclaration()) {
	    decls.push_back(JO{ { "name", nm }, { "dem", san(demangle(nm)) }, { "body", ext }, { "nounwind", f.doesNotThrow() }, { "noreturn", f.doesNotReturn() }, { "file", file } });
	    continue;
	    }
	}
	JO fo;
	fo["name"] = nm; fo["dem"] = san(demangle(nm));
	fo["internal"] = f.hasLocalLinkage();
	fo["vis"] = f.hasHiddenVisibility() ? "hidden" : "default";
	fo["file"] = file; fo["line"] = (int64_t) (sp ? sp->getLine() : 0);
	fo["noreturn"] = f.doesNotReturn();
	fo["nounwind"] = f.doesNotThrow();
	fo["varargs"] = f.isVarArg();
	fo["fty"] = tystr(f.getFunctionType());
	JA ptys;
	if (sp && sp->getType()) { for (auto *t : sp->getType()->getTypeArray()) ptys.push_back(ditype(t)); }
	fo["dtypes"] = std::move(ptys);
	FnCtx x; int n = 0, b = 0;
	for (auto &bb : f) { x.bb[&bb] = b++; for (auto &i : bb) { if (isa<DbgInfoIntrinsic>(&i)) { continue; } x.id[&i] = n++; } }
	std::map<const Value *, std::string> vname; std::map<unsigned, std::string> aname;
	std::map<const Value *, std::string> vtype;
	for (auto &bb : f) for (auto &i : bb) {
	    if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&i)) {
		if (dv->getNumVariableLocationOps() != 1) continue;
		Value *v = dv->getVariableLocationOp(0);
		if (!v) continue;
		if (auto *a = dyn_cast<Argument>(v)) { if (!aname.count(a->getArgNo()) || dv->getVariable()->getArg()) aname[a->getArgNo()] = dv->getVariable()->getName().str(); }
		else if (isa<Instruction>(v)) { vname[v] = dv->getVariable()->getName().str(); vtype[v] = ditype(dv->getVariable()->getType()); }
	    }
	}
	JA args;
	for (auto &a : f.args()) args.push_back(JA{ aname.count(a.getArgNo()) ? aname[a.getArgNo()] : a.getName().str(), tystr(a.getType()), a.hasStructRetAttr() || a.hasByValAttr() });
	fo["args"] = std::move(args);
	JA blocks;
	for (auto &bb : f) {
	    JA ins;
	    for (auto &i : bb) {
		if (isa<DbgInfoIntrinsic>(&i)) continue;
		JO o;
		o["i"] = x.id[&i];
		o["op"] = i.getOpcodeName();
		o["ty"] = tystr(i.getType());
		if (auto &dl = i.getDebugLoc()) {
		    o["l"] = (int64_t) dl.getLine();
		    auto *sc = dyn_cast_or_null<DIScope>(dl.getScope());
		    if (sc && sc->getFile() && absname(sc->getFile()) != file) o["lf"] = absname(sc->getFile());
		}
		if (vname.count(&i)) { o["var"] = vname[&i]; o["vty"] = vtype[&i]; }
		if (auto *cb = dyn_cast<CallBase>(&i)) {
		    const Value *cv = cb->getCalledOperand()->stripPointerCasts();
		    if (auto *cf = dyn_cast<Function>(cv)) {
			if (cf->getName().starts_with("llvm.lifetime") ) continue;
			o["fn"] = cf->getName().str();
		    } else if (isa<InlineAsm>(cv)) o["fn"] = "asm";
		    else o["fp"] = operand(x, cv);
		    JA as; for (auto &a : cb->args()) {
			if (isa<MetadataAsValue>(a)) { as.push_back(JA{ "?" }); continue; }
			as.push_back(operand(x, a)); }
		    o["args"] = std::move(as);
		    o["fty"] = tystr(cb->getFunctionType());
		    if (cb->doesNotThrow()) o["nu"] = true;
		    if (cb->doesNotReturn()) o["nr"] = true;
		    JA sr; for (unsigned k = 0; k < cb->arg_size(); k++) if (cb->paramHasAttr(k, Attribute::StructRet)) sr.push_back((int64_t) k);
		    if (!sr.empty()) o["sret"] = std::move(sr);
		    if (auto *inv = dyn_cast<InvokeInst>(&i)) { o["n"] = x.bb[inv->getNormalDest()]; o["uw"] = x.bb[inv->getUnwindDest()]; }
		} else if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
		    o["p"] = operand(x, g->getPointerOperand());
		    APInt off(64, 0);
		    if (g->accumulateConstantOffset(*DL, off)) o["off"] = (int64_t) off.getSExtValue();
		    o["sty"] = tystr(g->getSourceElementType());
		    JA ix; for (auto k = g->idx_begin(); k != g->idx_end(); ++k) ix.push_back(operand(x, *k));
		    o["ix"] = std::move(ix);
		} else if (auto *c = dyn_cast<CmpInst>(&i)) {
		    o["pr"] = pred(c->getPredicate());
		    o["a"] = operand(x, c->getOperand(0)); o["b"] = operand(x, c->getOperand(1));
		} else if (auto *p = dyn_cast<PHINode>(&i)) {
		    JA in; for (unsigned k = 0; k < p->getNumIncomingValues(); k++) in.push_back(JA{ x.bb[p->getIncomingBlock(k)], operand(x, p->getIncomingValue(k)) });
		    o["in"] = std::move(in);
		} else if (auto *br = dyn_cast<BranchInst>(&i)) {
		    if (br->isConditional()) { o["c"] = operand(x, br->getCondition()); o["t"] = JA{ x.bb[br->getSuccessor(0)], x.bb[br->getSuccessor(1)] }; }
		    else o["t"] = JA{ x.bb[br->getSuccessor(0)] };
		} else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
		    o["c"] = operand(x, sw->getCondition()); o["d"] = x.bb[sw->getDefaultDest()];
		    JA cs; for (auto &k : sw->cases()) cs.push_back(JA{ (int64_t) k.getCaseValue()->getSExtValue(), x.bb[k.getCaseSuccessor()] });
		    o["cs"] = std::move(cs);
		} else if (auto *al = dyn_cast<AllocaInst>(&i)) {
		    o["aty"] = tystr(al->getAllocatedType());
		    o["sz"] = (int64_t) (al->isArrayAllocation() ? 0 : DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue());
		} else if (auto *lp = dyn_cast<LandingPadInst>(&i)) {
		    JA cl; for (unsigned k = 0; k < lp->getNumClauses(); k++) { auto *c2 = lp->getClause(k)->stripPointerCasts(); cl.push_back(isa<GlobalValue>(c2) ? c2->getName().str() : (isa<ConstantPointerNull>(c2) ? "*" : "?")); }
		    o["cl"] = std::move(cl); o["cleanup"] = lp->isCleanup();
		} else if (auto *st = dyn_cast<StoreInst>(&i)) {
		    o["v"] = operand(x, st->getValueOperand()); o["p"] = operand(x, st->getPointerOperand());
		    o["sz"] = (int64_t) DL->getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue();
		    o["vt"] = tystr(st->getValueOperand()->getType());
		} else if (auto *ld = dyn_cast<LoadInst>(&i)) {
		    o["p"] = operand(x, ld->getPointerOperand());
		} else {
		    JA os; for (auto &op : i.operands()) os.push_back(operand(x, op));
		    o["ops"] = std::move(os);
		    if (auto *ev = dyn_cast<ExtractValueInst>(&i)) { JA ix; for (auto k : ev->indices()) ix.push_back((int64_t) k); o["ix"] = std::move(ix); }
		    if (auto *iv = dyn_cast<InsertValueInst>(&i)) { JA ix; for (auto k : iv->indices()) ix.push_back((int64_t) k); o["ix"] = std::move(ix); }
		}
		ins.push_back(std::move(o));
	    }
	    blocks.push_back(std::move(ins));
	}
	fo["blocks"] = std::move(blocks);
	fns.push_back(std::move(fo));
    }
    top["src"] = m->getSourceFileName();
    top["functions"] = std::move(fns); top["decls"] = std::move(decls); top["globals"] = std::move(globs);
    top["structs"] = std::move(structs); top["enums"] = std::move(enums);
    std::error_code ec; raw_fd_ostream os(argv[2], ec);
    if (ec) { errs() << ec.message(); return 1; }
    os << json::Value(std::move(top)); return 0;
}

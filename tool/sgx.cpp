// sgx: stingraykit fact extractor.
// Parses one translation unit with clang and lowers every concrete (non-dependent) function defined under the
// source root into a small control-flow graph with explicit destructor calls and explicit exceptional edges.
// Output: one JSON object per line ("kind": fn | rec | enum | var).
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/Basic/Builtins.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/SmallString.h"
#include <set>
#include <map>
#include <memory>
#include <deque>

using namespace clang;
namespace json = llvm::json;
using json::Value;
using json::Array;
using json::Object;

static std::vector<std::string> Roots;
static std::string OutPath;
static std::vector<std::string> Skip;

static int64_t i64(const llvm::APSInt& v) { return v.isRepresentableByInt64() ? v.getExtValue() : (int64_t)v.getRawData()[0]; }
static std::string clip(std::string s, size_t n = 300) { if (s.size() > n) { s.resize(n); } return llvm::json::isUTF8(s) ? s : llvm::json::fixUTF8(s); }

class Ctx
{
public:
	ASTContext& C;
	SourceManager& SM;
	ASTNameGenerator NG;
	PrintingPolicy PP;
	llvm::raw_ostream& OS;
	std::map<const Decl*, std::string> idCache;
	std::set<const Decl*> done;
	std::deque<const FunctionDecl*> pending;
	std::set<const Decl*> recsDone;

	Ctx(ASTContext& c, llvm::raw_ostream& os) : C(c), SM(c.getSourceManager()), NG(c), PP(c.getPrintingPolicy()), OS(os)
	{
		PP.SuppressTagKeyword = true;
		PP.FullyQualifiedName = true;
	}

	std::pair<std::string, unsigned> loc(SourceLocation l)
	{
		l = SM.getExpansionLoc(l);
		PresumedLoc p = SM.getPresumedLoc(l);
		if (p.isInvalid()) return {"", 0};
		return {p.getFilename(), p.getLine()};
	}
	unsigned line(SourceLocation l) { return loc(l).second; }
	bool inRoot(SourceLocation l)
	{
		std::string f = loc(l).first;
		for (auto& r : Roots)
			if (f.compare(0, r.size(), r) == 0)
			{
				for (auto& s : Skip)
					if (f.find(s) != std::string::npos)
						return false;
				return true;
			}
		return false;
	}
	std::string qname(const NamedDecl* d)
	{
		std::string s;
		llvm::raw_string_ostream os(s);
		d->printQualifiedName(os, PP);
		return clip(os.str(), 600);
	}
	std::string typeStr(QualType t) { return clip(t.getCanonicalType().getAsString(PP), 400); }

	std::string id(const FunctionDecl* f)
	{
		f = f->getCanonicalDecl();
		auto it = idCache.find(f);
		if (it != idCache.end()) return it->second;
		std::string s;
		if (!f->isDependentContext())
		{
			if (auto* m = dyn_cast<CXXMethodDecl>(f); m && m->getParent()->isLambda())
				s = "";
			else
				s = NG.getName(f);
		}
		if (s.empty())
		{
			llvm::SmallString<256> b;
			if (!index::generateUSRForDecl(f, b)) s = std::string(b.str());
			auto l = loc(f->getLocation());
			s += "@" + l.first + ":" + std::to_string(l.second) + ":" + std::to_string(SM.getPresumedColumnNumber(SM.getExpansionLoc(f->getLocation())));
			if (auto* m = dyn_cast<CXXMethodDecl>(f); m && m->getParent()->isLambda())
			{
				// distinguish instantiations of the enclosing function
				const DeclContext* dc = m->getParent()->getDeclContext();
				while (dc && !isa<FunctionDecl>(dc)) dc = dc->getParent();
				if (dc) s += "^" + id(cast<FunctionDecl>(dc));
			}
		}
		s = llvm::json::isUTF8(s) ? s : llvm::json::fixUTF8(s);
		idCache[f] = s;
		return s;
	}

	void out(Object&& o)
	{
		OS << Value(std::move(o)) << "\n";
	}
	void need(const FunctionDecl* f)
	{
		if (!f) return;
		pending.push_back(f);
	}
	std::string recName(const CXXRecordDecl* r) { return qname(r); }
	void emitRecord(const CXXRecordDecl* r);
	void emitFunction(const FunctionDecl* f);
	void drain()
	{
		while (!pending.empty())
		{
			const FunctionDecl* f = pending.front();
			pending.pop_front();
			emitFunction(f);
		}
	}
};

static const CXXRecordDecl* recOf(QualType t)
{
	if (t.isNull()) return nullptr;
	t = t.getNonReferenceType();
	while (const ArrayType* at = t->getAsArrayTypeUnsafe()) t = at->getElementType();
	const CXXRecordDecl* r = t->getAsCXXRecordDecl();
	return r ? r->getDefinition() : nullptr;
}

static const CXXDestructorDecl* nontrivialDtor(QualType t)
{
	if (t.isNull() || t->isReferenceType()) return nullptr;
	const CXXRecordDecl* r = recOf(t);
	if (!r || r->hasTrivialDestructor()) return nullptr;
	return r->getDestructor();
}

struct Lower
{
	Ctx& X;
	ASTContext& C;
	const FunctionDecl* F;
	bool isLambda = false;

	struct Node { Object o; std::vector<int> succ; int eh = -2; }; // eh: -2 none; else node index
	std::vector<Node> nodes;
	int cur = -1;
	int exitNode, ehExitNode;
	int tmpCounter = 0;
	Object vars;

	struct Cleanup
	{
		enum K { Base, Var, Catch } k;
		Value obj{nullptr};
		const CXXDestructorDecl* dtor = nullptr;
		int catchNode = -1;
		int unwind = -1;
		unsigned line = 0;
		Cleanup* parent = nullptr;
		const VarDecl* vd = nullptr;
	};
	std::vector<std::unique_ptr<Cleanup>> pool;
	Cleanup* top = nullptr;
	struct Jump { int target; Cleanup* level; };
	std::vector<Jump> breaks, conts;
	Value retTarget{nullptr};
	std::vector<std::pair<int, Cleanup*>> rethrowCtx;

	Lower(Ctx& x, const FunctionDecl* f) : X(x), C(x.C), F(f)
	{
		if (auto* m = dyn_cast<CXXMethodDecl>(f))
			isLambda = m->getParent()->isLambda();
		exitNode = newNode(Object{{"op", "exit"}});
		ehExitNode = newNode(Object{{"op", "ehexit"}});
		top = push(Cleanup::Base);
		top->unwind = ehExitNode;
	}

	Cleanup* push(Cleanup::K k)
	{
		pool.emplace_back(new Cleanup);
		Cleanup* c = pool.back().get();
		c->k = k; c->parent = top;
		top = c;
		return c;
	}
	int newNode(Object o)
	{
		nodes.emplace_back();
		nodes.back().o = std::move(o);
		return nodes.size() - 1;
	}
	int label() { return newNode(Object{{"op", "nop"}}); }
	void go(int target) { if (cur >= 0) nodes[cur].succ.push_back(target); cur = -1; }
	void at(int l) { cur = l; }
	int emit(Object o)
	{
		if (cur < 0) { // unreachable code: still lower, from an orphan label
			cur = label();
		}
		int n = newNode(std::move(o));
		nodes[cur].succ.push_back(n);
		cur = n;
		return n;
	}

	Object dtorOp(Cleanup* c)
	{
		Object o{{"op", "call"}, {"k", "dtor"}, {"obj", c->obj}, {"l", c->line}, {"args", Array{}}};
		fillCallee(o, c->dtor);
		return o;
	}
	int unwindOf(Cleanup* c)
	{
		if (c->k == Cleanup::Catch) return c->catchNode;
		if (c->unwind >= 0) return c->unwind;
		int p = unwindOf(c->parent);
		int n = newNode(dtorOp(c));
		nodes[n].succ.push_back(p);
		nodes[n].o["uw"] = true;
		c->unwind = n;
		return n;
	}
	void setEh(int n) { int u = unwindOf(top); nodes[n].eh = u; }

	// run destructors from top down to (not including) level on normal path, popping
	void popTo(Cleanup* level)
	{
		while (top != level)
		{
			Cleanup* c = top;
			top = c->parent;
			if (c->k == Cleanup::Var)
			{
				if (cur >= 0) { int n = emit(dtorOp(c)); if (dtorMayThrow(c->dtor)) setEh(n); }
			}
		}
	}
	bool dtorMayThrow(const CXXDestructorDecl* d)
	{
		const FunctionProtoType* t = d->getType()->getAs<FunctionProtoType>();
		if (!t) return false;
		if (t->getExceptionSpecType() == EST_Unevaluated || t->getExceptionSpecType() == EST_Uninstantiated) return false;
		return !t->isNothrow();
	}
	// run destructors down to level without popping (for jumps)
	void unwindNormal(Cleanup* level)
	{
		Cleanup* saved = top;
		while (top != level)
		{
			Cleanup* c = top;
			top = c->parent;
			if (c->k == Cleanup::Var && cur >= 0) { int n = emit(dtorOp(c)); if (dtorMayThrow(c->dtor)) setEh(n); }
		}
		top = saved;
	}

	void fillCallee(Object& o, const FunctionDecl* fd)
	{
		if (!fd) return;
		o["fn"] = X.id(fd);
		o["n"] = X.qname(fd);
		bool nothrow = false;
		if (auto* t = fd->getType()->getAs<FunctionProtoType>())
		{
			auto est = t->getExceptionSpecType();
			if (est == EST_Unevaluated)
			{
				nothrow = isa<CXXDestructorDecl>(fd);
				if (auto* cd = dyn_cast<CXXConstructorDecl>(fd))
					if (cd->isTrivial()) nothrow = true;
			}
			else if (est == EST_Uninstantiated)
				nothrow = isa<CXXDestructorDecl>(fd);
			else
				nothrow = t->isNothrow();
		}
		if (fd->getBuiltinID()) nothrow = true;
		if (fd->isExternC()) nothrow = true;
		if (nothrow) o["nt"] = true;
		if (auto* m = dyn_cast<CXXMethodDecl>(fd))
		{
			if (m->isConst()) o["const"] = true;
			if (m->isVirtual()) o["virt"] = true;
			if (m->isStatic()) o["static"] = true;
			o["cls"] = X.recName(m->getParent());
		}
		{
			Array mr;
			for (unsigned i = 0; i < fd->getNumParams(); ++i)
			{
				QualType pt = fd->getParamDecl(i)->getType();
				if (pt->isReferenceType() && !pt->getPointeeType().isConstQualified()) mr.push_back((int64_t)i);
			}
			if (!mr.empty()) o["mr"] = std::move(mr);
		}
		if (fd->isNoReturn()) o["noret"] = true;
		if (fd->hasAttr<WarnUnusedResultAttr>()) o["nodiscard"] = true;
		const FunctionDecl* def = nullptr;
		if (fd->hasBody(def) && def) X.need(def);
		else if (auto* m = dyn_cast<CXXMethodDecl>(fd))
			if (m->isDefaulted() || m->isImplicit()) X.need(fd);
	}

	Value varKey(const VarDecl* v)
	{
		auto l = X.SM.getExpansionLoc(v->getLocation());
		std::string key = v->getNameAsString() + "@" + std::to_string(X.SM.getPresumedLineNumber(l)) + ":" + std::to_string(X.SM.getPresumedColumnNumber(l));
		return key;
	}
	Value declRef(const ValueDecl* d)
	{
		if (auto* p = dyn_cast<ParmVarDecl>(d))
		{
			const DeclContext* dc = p->getDeclContext();
			Value v = Array{"par", (int64_t)p->getFunctionScopeIndex(), p->getNameAsString()};
			if (isLambda && dyn_cast<FunctionDecl>(dc) && cast<FunctionDecl>(dc)->getCanonicalDecl() != F->getCanonicalDecl())
				return Array{"outer", v};
			return v;
		}
		if (auto* v = dyn_cast<VarDecl>(d))
		{
			if (v->isLocalVarDecl() && !v->isStaticLocal())
			{
				Value r = Array{"var", varKey(v)};
				const DeclContext* dc = v->getParentFunctionOrMethod();
				if (isLambda && dc && isa<FunctionDecl>(dc) && cast<FunctionDecl>(dc)->getCanonicalDecl() != F->getCanonicalDecl())
					return Array{"outer", std::move(r)};
				return r;
			}
			if (v->isInitCapture()) return Array{"var", varKey(v)};
			return Array{"gvar", X.qname(v)};
		}
		if (auto* e = dyn_cast<EnumConstantDecl>(d))
			return Array{"enum", X.qname(e), (int64_t)i64(e->getInitVal())};
		if (auto* f = dyn_cast<FunctionDecl>(d))
		{
			const FunctionDecl* def = nullptr;
			if (f->hasBody(def) && def) X.need(def);
			return Array{"fn", X.id(f), X.qname(f)};
		}
		if (auto* b = dyn_cast<BindingDecl>(d)) { if (b->getBinding()) return ev(b->getBinding()); }
		if (auto* fd = dyn_cast<FieldDecl>(d))
			return Array{"field", X.qname(fd)};
		return Array{"decl", X.qname(d)};
	}

	// ---------------------------------------------------------------- expressions
	Value tmp() { return Array{"tmp", (int64_t)tmpCounter++}; }

	Value strip(Value v) { return v; }

	Value deref(Value v)
	{
		if (auto* a = v.getAsArray())
			if (a->size() == 2 && (*a)[0].getAsString() && *(*a)[0].getAsString() == "addr")
				return (*a)[1];
		return Array{"deref", std::move(v)};
	}
	Value addr(Value v)
	{
		if (auto* a = v.getAsArray())
			if (a->size() == 2 && (*a)[0].getAsString() && *(*a)[0].getAsString() == "deref")
				return (*a)[1];
		return Array{"addr", std::move(v)};
	}

	void rd(const Value& p, SourceLocation l)
	{
		if (auto* a = p.getAsArray())
		{
			auto k = (*a)[0].getAsString();
			if (k && (*k == "fld" || *k == "gvar" || *k == "deref" || *k == "idx"))
				emit(Object{{"op", "rd"}, {"p", p}, {"l", X.line(l)}});
		}
	}
	void wr(const Value& p, Value v, SourceLocation l, bool rmw = false)
	{
		Object o{{"op", "wr"}, {"p", p}, {"v", std::move(v)}, {"l", X.line(l)}};
		if (rmw) o["rmw"] = true;
		emit(std::move(o));
	}

	bool isElidable(const CXXConstructExpr* ce)
	{ return ce->isElidable() && ce->getNumArgs() >= 1; }

	Value callCtor(const CXXConstructExpr* ce, Value target)
	{
		const CXXConstructorDecl* cd = ce->getConstructor();
		Array args;
		for (unsigned i = 0; i < ce->getNumArgs(); ++i)
			args.push_back(ev(ce->getArg(i)));
		Object o{{"op", "call"}, {"k", "ctor"}, {"obj", target}, {"args", std::move(args)}, {"l", X.line(ce->getBeginLoc())}};
		fillCallee(o, cd);
		if (cd->isCopyOrMoveConstructor()) o["cm"] = cd->isMoveConstructor() ? "move" : "copy";
		if (cd->isTrivial()) o["triv"] = true;
		bool nt = o.get("nt") != nullptr;
		int n = emit(std::move(o));
		if (!nt) setEh(n);
		return target;
	}

	// evaluate initializer into target object; returns value tree
	Value evInto(const Expr* e, Value target)
	{
		const Expr* s = e;
		while (true)
		{
			if (auto* x = dyn_cast<ExprWithCleanups>(s))
			{
				Cleanup* mark = top;
				Value v = evInto(x->getSubExpr(), target);
				popTo(mark);
				return v;
			}
			if (auto* x = dyn_cast<ParenExpr>(s)) { s = x->getSubExpr(); continue; }
			if (auto* x = dyn_cast<CXXBindTemporaryExpr>(s)) { s = x->getSubExpr(); continue; }
			if (auto* x = dyn_cast<MaterializeTemporaryExpr>(s)) { s = x->getSubExpr(); continue; }
			if (auto* x = dyn_cast<ConstantExpr>(s)) { s = x->getSubExpr(); continue; }
			if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) { s = x->getReplacement(); continue; }
			if (auto* x = dyn_cast<CXXDefaultArgExpr>(s)) { s = x->getExpr(); continue; }
			if (auto* x = dyn_cast<CXXDefaultInitExpr>(s)) { s = x->getExpr(); continue; }
			if (auto* x = dyn_cast<CastExpr>(s))
			{
				auto k = x->getCastKind();
				if (k == CK_NoOp || k == CK_ConstructorConversion || k == CK_UserDefinedConversion) { s = x->getSubExpr(); continue; }
			}
			break;
		}
		if (auto* ce = dyn_cast<CXXConstructExpr>(s))
		{
			if (isElidable(ce))
				return evInto(ce->getArg(0), target);
			callCtor(ce, target);
			return target;
		}
		if (auto* il = dyn_cast<InitListExpr>(s))
		{
			if (const CXXRecordDecl* r = recOf(il->getType()); r && !il->isTransparent())
			{
				unsigned i = 0;
				Array a{"init"};
				for (auto& b : r->bases()) { (void)b; if (i < il->getNumInits()) { a.push_back(ev(il->getInit(i))); ++i; } }
				for (auto* f : r->fields())
				{
					if (i >= il->getNumInits()) break;
					Value ft = Array{"fld", target, f->getNameAsString(), X.recName(r)};
					a.push_back(evInto(il->getInit(i), ft));
					++i;
				}
				return Value(std::move(a));
			}
		}
		if (auto* ce = dyn_cast<CallExpr>(s))
			return call(ce, target);
		if (auto* co = dyn_cast<ConditionalOperator>(s))
		{
			int t = label(), f = label(), e2 = label();
			Cleanup* mark = top;
			cond(co->getCond(), t, f);
			(void)mark;
			at(t); Cleanup* m1 = top; evInto(co->getTrueExpr(), target); popTo(m1); go(e2);
			at(f); evInto(co->getFalseExpr(), target); popTo(m1); go(e2);
			at(e2);
			return target;
		}
		Value v = ev(s);
		return v;
	}

	bool constCond(const Expr* e, bool& r)
	{
		if (e->isValueDependent()) return false;
		Expr::EvalResult er;
		if (e->HasSideEffects(C)) return false;
		return e->EvaluateAsBooleanCondition(r, C);
	}

	static bool isExpect(const Expr* e)
	{
		auto* ce = dyn_cast<CallExpr>(e->IgnoreParens());
		return ce && ce->getDirectCallee() && ce->getDirectCallee()->getBuiltinID() == Builtin::BI__builtin_expect;
	}
	void cond(const Expr* e, int t, int f)
	{
		const Expr* s = e->IgnoreParens();
		bool b;
		if (constCond(s, b)) { go(b ? t : f); return; }
		if (auto* x = dyn_cast<ExprWithCleanups>(s))
		{
			// destroy temporaries on both outcomes
			Cleanup* mark = top;
			int lt = label(), lf = label();
			cond(x->getSubExpr(), lt, lf);
			Cleanup* full = top;
			at(lt); unwindNormal(mark); go(t);
			top = full;
			at(lf); unwindNormal(mark); go(f);
			top = mark;
			return;
		}
		if (auto* x = dyn_cast<ImplicitCastExpr>(s))
		{
			auto k = x->getCastKind();
			if (k == CK_UserDefinedConversion || k == CK_NoOp)
			{
				if (x->getSubExpr()->getType()->isBooleanType() || k == CK_NoOp) { cond(x->getSubExpr(), t, f); return; }
			}
			if (k == CK_IntegralToBoolean && isExpect(x->getSubExpr())) { cond(x->getSubExpr(), t, f); return; }
			if (k == CK_IntegralCast && x->getSubExpr()->getType()->isBooleanType()) { cond(x->getSubExpr(), t, f); return; }
		}
		if (isExpect(s)) { cond(cast<CallExpr>(s)->getArg(0), t, f); return; }
		if (auto* x = dyn_cast<UnaryOperator>(s))
			if (x->getOpcode() == UO_LNot) { cond(x->getSubExpr(), f, t); return; }
		if (auto* x = dyn_cast<BinaryOperator>(s))
		{
			if (x->getOpcode() == BO_LAnd)
			{
				int m = label();
				Cleanup* mark = top;
				cond(x->getLHS(), m, f);
				at(m);
				Cleanup* m2 = top;
				if (hasTemps(x->getRHS()))
				{
					int lt = label(), lf = label();
					cond(x->getRHS(), lt, lf);
					Cleanup* full = top;
					at(lt); unwindNormal(m2); go(t);
					top = full;
					at(lf); unwindNormal(m2); go(f);
					top = m2;
				}
				else
					cond(x->getRHS(), t, f);
				(void)mark;
				return;
			}
			if (x->getOpcode() == BO_LOr)
			{
				int m = label();
				cond(x->getLHS(), t, m);
				at(m);
				Cleanup* m2 = top;
				if (hasTemps(x->getRHS()))
				{
					int lt = label(), lf = label();
					cond(x->getRHS(), lt, lf);
					Cleanup* full = top;
					at(lt); unwindNormal(m2); go(t);
					top = full;
					at(lf); unwindNormal(m2); go(f);
					top = m2;
				}
				else
					cond(x->getRHS(), t, f);
				return;
			}
		}
		Value v = ev(s);
		branch(std::move(v), t, f, s->getBeginLoc());
	}
	bool hasTemps(const Stmt* s)
	{
		if (!s) return false;
		if (isa<CXXBindTemporaryExpr>(s)) return true;
		if (isa<LambdaExpr>(s)) return false;
		for (const Stmt* c : s->children()) if (hasTemps(c)) return true;
		return false;
	}
	void branch(Value v, int t, int f, SourceLocation l)
	{
		int n = emit(Object{{"op", "br"}, {"c", std::move(v)}, {"l", X.line(l)}});
		nodes[n].succ.push_back(t);
		nodes[n].succ.push_back(f);
		cur = -1;
	}

	Value call(const CallExpr* ce, Value target = nullptr)
	{
		const FunctionDecl* fd = ce->getDirectCallee();
		Object o{{"op", "call"}, {"l", X.line(ce->getExprLoc())}};
		Array args;
		Value obj = nullptr;
		Value calleeVal = nullptr;
		bool ptrMem = false;
		unsigned first = 0;
		if (auto* oc = dyn_cast<CXXOperatorCallExpr>(ce))
		{
			if (fd && isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic())
			{
				obj = ev(oc->getArg(0));
				first = 1;
			}
		}
		else if (auto* mc = dyn_cast<CXXMemberCallExpr>(ce))
		{
			const Expr* callee = mc->getCallee()->IgnoreParens();
			if (auto* me = dyn_cast<MemberExpr>(callee))
			{
				obj = ev(me->getBase());
				if (me->isArrow()) obj = deref(std::move(obj));
				if (fd && cast<CXXMethodDecl>(fd)->isVirtual() && me->hasQualifier()) o["nonvirt"] = true;
				if (fd && cast<CXXMethodDecl>(fd)->isVirtual())
				{
					const CXXMethodDecl* md = cast<CXXMethodDecl>(fd);
					if (const CXXMethodDecl* dv = const_cast<CXXMethodDecl*>(md)->getDevirtualizedMethod(me->getBase(), false))
					{ fd = dv; o["nonvirt"] = true; }
				}
			}
			else if (auto* bo = dyn_cast<BinaryOperator>(callee))
			{
				ptrMem = true;
				obj = ev(bo->getLHS());
				if (bo->getOpcode() == BO_PtrMemI) obj = deref(std::move(obj));
				calleeVal = ev(bo->getRHS());
			}
		}
		else if (!fd)
		{
			const Expr* callee = ce->getCallee();
			if (!isa<CXXPseudoDestructorExpr>(callee->IgnoreParens()))
				calleeVal = ev(callee);
		}
		const FunctionProtoType* fpt = nullptr;
		for (unsigned i = first; i < ce->getNumArgs(); ++i)
			args.push_back(ev(ce->getArg(i)));
		if (isa<CXXPseudoDestructorExpr>(ce->getCallee()->IgnoreParens()))
			return nullptr;
		if (obj.kind() != Value::Null) o["obj"] = std::move(obj);
		if (calleeVal.kind() != Value::Null) o["callee"] = std::move(calleeVal);
		if (ptrMem) o["ptrmem"] = true;
		o["args"] = std::move(args);
		if (fd) fillCallee(o, fd);
		else if (auto* t = ce->getCallee()->getType()->getPointeeType().getTypePtrOrNull())
		{
			fpt = t->getAs<FunctionProtoType>();
			if (fpt && fpt->isNothrow()) o["nt"] = true;
		}
		bool nt = o.get("nt") != nullptr;
		bool noret = o.get("noret") != nullptr;
		Value res = nullptr;
		if (!ce->getType()->isVoidType())
		{
			if (target.kind() != Value::Null) res = target;
			else
			{
				res = Array{"res", (int64_t)tmpCounter++};
			}
			o["dst"] = res;
			if (ce->getType()->isBooleanType()) o["bool"] = true;
			else if (ce->isGLValue()) o["lv"] = true;
			else if (const CXXRecordDecl* rr = recOf(ce->getType())) o["rrec"] = X.recName(rr);
		}
		int n = emit(std::move(o));
		if (!nt) setEh(n);
		if (noret) cur = -1;
		if (noret) { cur = label(); }
		return res;
	}

	void pushTemp(const Value& t, QualType ty, SourceLocation l)
	{
		if (const CXXDestructorDecl* d = nontrivialDtor(ty))
		{
			Cleanup* c = push(Cleanup::Var);
			c->obj = t; c->dtor = d; c->line = X.line(l);
		}
	}

	Value ev(const Expr* e)
	{
		if (!e) return nullptr;
		switch (e->getStmtClass())
		{
		case Stmt::ParenExprClass: return ev(cast<ParenExpr>(e)->getSubExpr());
		case Stmt::ConstantExprClass: return ev(cast<ConstantExpr>(e)->getSubExpr());
		case Stmt::SubstNonTypeTemplateParmExprClass: return ev(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
		case Stmt::CXXDefaultArgExprClass: return ev(cast<CXXDefaultArgExpr>(e)->getExpr());
		case Stmt::CXXDefaultInitExprClass: return ev(cast<CXXDefaultInitExpr>(e)->getExpr());
		case Stmt::ExprWithCleanupsClass:
			{
				Cleanup* mark = top;
				Value v = ev(cast<ExprWithCleanups>(e)->getSubExpr());
				popTo(mark);
				return v;
			}
		case Stmt::CXXBindTemporaryExprClass:
			{
				auto* b = cast<CXXBindTemporaryExpr>(e);
				Value t = tmp();
				Value v = evInto(b->getSubExpr(), t);
				pushTemp(t, b->getType(), b->getBeginLoc());
				return t;
			}
		case Stmt::MaterializeTemporaryExprClass:
			{
				auto* m = cast<MaterializeTemporaryExpr>(e);
				const Expr* sub = m->getSubExpr();
				return ev(sub);
			}
		case Stmt::CXXThisExprClass: return Array{"addr", isLambda ? Value(Array{"outer", Array{"this"}}) : Value(Array{"this"})};
		case Stmt::DeclRefExprClass: return declRef(cast<DeclRefExpr>(e)->getDecl());
		case Stmt::MemberExprClass:
			{
				auto* m = cast<MemberExpr>(e);
				if (auto* vd = dyn_cast<VarDecl>(m->getMemberDecl())) return Array{"gvar", X.qname(vd)};
				if (auto* ec = dyn_cast<EnumConstantDecl>(m->getMemberDecl())) return declRef(ec);
				if (auto* fd = dyn_cast<FunctionDecl>(m->getMemberDecl())) { if (!isa<CXXMethodDecl>(fd) || cast<CXXMethodDecl>(fd)->isStatic()) return declRef(fd); return Array{"fn", X.id(fd), X.qname(fd)}; }
				Value base = ev(m->getBase());
				if (m->isArrow()) base = deref(std::move(base));
				if (auto* f = dyn_cast<FieldDecl>(m->getMemberDecl()))
				{
					if (f->isAnonymousStructOrUnion()) return base;
					const CXXRecordDecl* r = dyn_cast<CXXRecordDecl>(f->getParent());
					return Array{"fld", std::move(base), f->getNameAsString(), r ? X.recName(r) : ""};
				}
				return Array{"mem", std::move(base), m->getMemberDecl()->getNameAsString()};
			}
		case Stmt::CXXBoolLiteralExprClass: return Array{"lit", cast<CXXBoolLiteralExpr>(e)->getValue()};
		case Stmt::IntegerLiteralClass:
			{
				llvm::SmallString<32> s; cast<IntegerLiteral>(e)->getValue().toStringUnsigned(s);
				auto v = cast<IntegerLiteral>(e)->getValue();
				if (v.getActiveBits() < 63) return Array{"lit", (int64_t)v.getZExtValue()};
				return Array{"lit", std::string(s.str())};
			}
		case Stmt::CharacterLiteralClass: return Array{"lit", (int64_t)cast<CharacterLiteral>(e)->getValue()};
		case Stmt::StringLiteralClass:
			{
				auto* s = cast<StringLiteral>(e);
				return Array{"str", s->getCharByteWidth() == 1 ? clip(s->getString().str(), 200) : std::string("?")};
			}
		case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: return Array{"null"};
		case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass: return Array{"lit", 0};
		case Stmt::LambdaExprClass:
			{
				auto* l = cast<LambdaExpr>(e);
				const CXXMethodDecl* op = l->getCallOperator();
				Array caps;
				for (auto it = l->capture_init_begin(); it != l->capture_init_end(); ++it)
					if (*it) caps.push_back(ev(*it));
				if (op && !op->isDependentContext() && op->hasBody()) X.need(op);
				return Array{"lambda", op ? X.id(op) : "", std::move(caps)};
			}
		case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass:
			{
				auto* ce = cast<CXXConstructExpr>(e);
				if (isElidable(ce)) return ev(ce->getArg(0));
				Value t = tmp();
				callCtor(ce, t);
				return t;
			}
		case Stmt::CXXInheritedCtorInitExprClass: return nullptr;
		case Stmt::InitListExprClass:
			{
				auto* il = cast<InitListExpr>(e);
				if (recOf(il->getType())) { Value t = tmp(); return evInto(il, t); }
				Array a{"init"};
				for (unsigned i = 0; i < il->getNumInits(); ++i) a.push_back(ev(il->getInit(i)));
				return Value(std::move(a));
			}
		case Stmt::CXXStdInitializerListExprClass: return ev(cast<CXXStdInitializerListExpr>(e)->getSubExpr());
		case Stmt::ArrayInitLoopExprClass: case Stmt::OpaqueValueExprClass:
			if (auto* ov = dyn_cast<OpaqueValueExpr>(e)) { return ov->getSourceExpr() ? ev(ov->getSourceExpr()) : Value(nullptr); }
			return nullptr;
		case Stmt::CallExprClass: case Stmt::CXXMemberCallExprClass: case Stmt::CXXOperatorCallExprClass: case Stmt::UserDefinedLiteralClass:
			if (isExpect(e)) return ev(cast<CallExpr>(e)->getArg(0));
			return call(cast<CallExpr>(e));
		case Stmt::CXXNewExprClass:
			{
				auto* n = cast<CXXNewExpr>(e);
				for (unsigned i = 0; i < n->getNumPlacementArgs(); ++i) {}
				Array pl;
				for (unsigned i = 0; i < n->getNumPlacementArgs(); ++i) pl.push_back(ev(n->getPlacementArg(i)));
				if (n->isArray() && n->getArraySize()) ev(*n->getArraySize());
				bool placement = n->getNumPlacementArgs() > 0;
				int id = tmpCounter++;
				Value nv = Array{"new", (int64_t)id, X.typeStr(n->getAllocatedType())};
				Object o{{"op", "new"}, {"l", X.line(n->getBeginLoc())}, {"dst", nv}, {"t", X.typeStr(n->getAllocatedType())}};
				if (placement) o["place"] = std::move(pl);
				if (n->isArray()) o["arr"] = true;
				int nd = emit(std::move(o));
				if (!placement) setEh(nd);
				Value tgt = Array{"deref", nv};
				if (n->getInitializer())
				{
					Value v = evInto(n->getInitializer(), tgt);
					if (!recOf(n->getAllocatedType())) wr(tgt, std::move(v), n->getBeginLoc());
				}
				return nv;
			}
		case Stmt::CXXDeleteExprClass:
			{
				auto* d = cast<CXXDeleteExpr>(e);
				Value v = ev(d->getArgument());
				Object o{{"op", "delete"}, {"p", v}, {"l", X.line(d->getBeginLoc())}};
				if (d->isArrayForm()) o["arr"] = true;
				QualType t = d->getDestroyedType();
				const CXXRecordDecl* r = recOf(t);
				o["t"] = t.isNull() ? std::string("") : X.typeStr(t);
				if (r && !r->hasTrivialDestructor() && r->getDestructor())
				{
					Object c{{"op", "call"}, {"k", "dtor"}, {"obj", deref(v)}, {"l", X.line(d->getBeginLoc())}, {"args", Array{}}, {"viadelete", true}};
					fillCallee(c, r->getDestructor());
					emit(std::move(c));
				}
				emit(std::move(o));
				return nullptr;
			}
		case Stmt::CXXThrowExprClass:
			{
				auto* t = cast<CXXThrowExpr>(e);
				Value v = nullptr;
				std::string ty;
				if (t->getSubExpr()) { v = ev(t->getSubExpr()); ty = X.typeStr(t->getSubExpr()->getType()); }
				int n = emit(Object{{"op", t->getSubExpr() ? "throw" : "rethrow"}, {"t", ty}, {"l", X.line(t->getThrowLoc())}});
				setEh(n);
				cur = -1;
				cur = label();
				return nullptr;
			}
		case Stmt::UnaryOperatorClass:
			{
				auto* u = cast<UnaryOperator>(e);
				switch (u->getOpcode())
				{
				case UO_AddrOf:
					if (auto* dr = dyn_cast<DeclRefExpr>(u->getSubExpr()->IgnoreParens()))
						if (auto* md = dyn_cast<CXXMethodDecl>(dr->getDecl()); md && !md->isStatic())
						{
							const FunctionDecl* def = nullptr;
							if (md->hasBody(def) && def) X.need(def);
							return Array{"memfn", X.id(md), X.qname(md)};
						}
					return addr(ev(u->getSubExpr()));
				case UO_Deref: return deref(ev(u->getSubExpr()));
				case UO_PreInc: case UO_PostInc: case UO_PreDec: case UO_PostDec:
					{
						Value v = ev(u->getSubExpr());
						rd(v, u->getOperatorLoc());
						wr(v, Array{"bin", u->isIncrementOp() ? "+" : "-", v, Array{"lit", 1}}, u->getOperatorLoc(), true);
						if (u->isPostfix()) return Array{"post", v};
						return v;
					}
				case UO_LNot: return Array{"un", "!", ev(u->getSubExpr())};
				case UO_Minus: return Array{"un", "-", ev(u->getSubExpr())};
				case UO_Not: return Array{"un", "~", ev(u->getSubExpr())};
				default: return ev(u->getSubExpr());
				}
			}
		case Stmt::BinaryOperatorClass: case Stmt::CompoundAssignOperatorClass:
			{
				auto* b = cast<BinaryOperator>(e);
				if (b->isAssignmentOp())
				{
					if (b->getOpcode() == BO_Assign)
					{
						Value l = ev(b->getLHS());
						Value r = ev(b->getRHS());
						wr(l, r, b->getOperatorLoc());
						return l;
					}
					Value l = ev(b->getLHS());
					Value r = ev(b->getRHS());
					rd(l, b->getOperatorLoc());
					wr(l, Array{"bin", BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(b->getOpcode())).str(), l, r}, b->getOperatorLoc(), true);
					return l;
				}
				if (b->isLogicalOp())
				{
					// value context: lower as control flow
					int t = label(), f = label(), j = label();
					Value lv = tmp();
					cond(b, t, f);
					at(t); wr(lv, Array{"lit", true}, b->getOperatorLoc()); go(j);
					at(f); wr(lv, Array{"lit", false}, b->getOperatorLoc()); go(j);
					at(j);
					return lv;
				}
				if (b->getOpcode() == BO_Comma) { ev(b->getLHS()); return ev(b->getRHS()); }
				if (b->isPtrMemOp())
				{
					Value l = ev(b->getLHS());
					if (b->getOpcode() == BO_PtrMemI) l = deref(std::move(l));
					Value r = ev(b->getRHS());
					return Array{"pm", std::move(l), std::move(r)};
				}
				Value l = ev(b->getLHS());
				Value r = ev(b->getRHS());
				return Array{"bin", b->getOpcodeStr().str(), std::move(l), std::move(r)};
			}
		case Stmt::ConditionalOperatorClass:
			{
				auto* co = cast<ConditionalOperator>(e);
				bool b;
				if (constCond(co->getCond(), b)) return ev(b ? co->getTrueExpr() : co->getFalseExpr());
				int t = label(), f = label(), j = label();
				cond(co->getCond(), t, f);
				Cleanup* m = top;
				Value res = tmp();
				at(t); { Value v = ev(co->getTrueExpr()); popTo(m); if (!co->getType()->isVoidType()) wr(res, v, co->getQuestionLoc()); go(j); }
				at(f); { Value v = ev(co->getFalseExpr()); popTo(m); if (!co->getType()->isVoidType()) wr(res, v, co->getQuestionLoc()); go(j); }
				at(j);
				return res;
			}
		case Stmt::BinaryConditionalOperatorClass:
			{
				auto* co = cast<BinaryConditionalOperator>(e);
				ev(co->getCommon());
				return nullptr;
			}
		case Stmt::ArraySubscriptExprClass:
			{
				auto* a = cast<ArraySubscriptExpr>(e);
				Value b = ev(a->getBase());
				Value i = ev(a->getIdx());
				return Array{"idx", std::move(b), std::move(i)};
			}
		case Stmt::UnaryExprOrTypeTraitExprClass: case Stmt::CXXNoexceptExprClass: case Stmt::TypeTraitExprClass: case Stmt::SizeOfPackExprClass:
		case Stmt::OffsetOfExprClass:
			{
				Expr::EvalResult r;
				if (!e->isValueDependent() && e->EvaluateAsInt(r, C)) return Array{"lit", (int64_t)i64(r.Val.getInt())};
				return Array{"lit", "?"};
			}
		case Stmt::CXXTypeidExprClass: return Array{"typeid"};
		case Stmt::StmtExprClass: { stmt(cast<StmtExpr>(e)->getSubStmt()); return nullptr; }
		case Stmt::FloatingLiteralClass: return Array{"lit", "float"};
		case Stmt::PredefinedExprClass: return Array{"str", "__func__"};
		case Stmt::AtomicExprClass:
			{
				auto* a = cast<AtomicExpr>(e);
				Array args;
				for (unsigned i = 0; i < a->getNumSubExprs(); ++i) args.push_back(ev(a->getSubExprs()[i]));
				Value res = Array{"res", (int64_t)tmpCounter++};
				emit(Object{{"op", "call"}, {"n", std::string("__atomic")}, {"aop", (int64_t)a->getOp()}, {"args", std::move(args)}, {"nt", true}, {"dst", res}, {"l", X.line(a->getBeginLoc())}});
				return res;
			}
		default: break;
		}
		if (auto* c = dyn_cast<CastExpr>(e))
		{
			switch (c->getCastKind())
			{
			case CK_LValueToRValue:
				{
					// compile-time constants (e.g. trait values)
					if (auto* dr = dyn_cast<DeclRefExpr>(c->getSubExpr()->IgnoreParens()))
						if (auto* vd = dyn_cast<VarDecl>(dr->getDecl()); vd && !vd->isLocalVarDecl() && vd->getType().isConstQualified())
						{
							Expr::EvalResult r;
							if (c->getType()->isIntegralOrEnumerationType() && c->EvaluateAsInt(r, C) && r.Val.getInt().getSignificantBits() <= 63)
								return Array{"lit", (int64_t)i64(r.Val.getInt())};
						}
					Value v = ev(c->getSubExpr());
					rd(v, c->getExprLoc());
					return v;
				}
			case CK_NullToPointer: return Array{"null"};
			case CK_ToVoid: ev(c->getSubExpr()); return nullptr;
			case CK_Dynamic: return Array{"dyncast", X.typeStr(c->getType()), ev(c->getSubExpr())};
			case CK_ArrayToPointerDecay: { Value v = ev(c->getSubExpr()); if (auto* a = v.getAsArray(); a && a->size() && (*a)[0].getAsString() && *(*a)[0].getAsString() == "str") return v; return Array{"decay", std::move(v)}; }
			case CK_IntegralCast:
				{
					Value v = ev(c->getSubExpr());
					QualType from = c->getSubExpr()->getType(), to = c->getType();
					if (!isa<ImplicitCastExpr>(c) || C.getTypeSize(to) < C.getTypeSize(from))
						return Array{"icast", X.typeStr(to), std::move(v)};
					return v;
				}
			default: return ev(c->getSubExpr());
			}
		}
		// fallback: evaluate children
		Array a{"expr", e->getStmtClassName()};
		for (const Stmt* ch : e->children())
			if (auto* ce = dyn_cast_or_null<Expr>(ch)) a.push_back(ev(ce));
		return Value(std::move(a));
	}

	// ---------------------------------------------------------------- statements
	void declVar(const VarDecl* v)
	{
		if (v->isStaticLocal())
		{
			// function-local static: initialised once (guarded); lower initialiser on a conditional path
			if (v->getInit())
			{
				int t = label(), j = label();
				Value g = Array{"gvar", X.qname(v)};
				branch(Array{"staticinit", X.qname(v)}, t, j, v->getLocation());
				at(t);
				Cleanup* m = top;
				Value r = evInto(v->getInit(), g);
				(void)r;
				popTo(m);
				go(j);
				at(j);
			}
			return;
		}
		Value key = varKey(v);
		Value me = Array{"var", key};
		Object info{{"t", X.typeStr(v->getType())}};
		info["n"] = v->getNameAsString();
		info["l"] = X.line(v->getLocation());
		if (const CXXRecordDecl* r = recOf(v->getType())) info["rec"] = X.recName(r);
		QualType t = v->getType();
		if (t->isReferenceType()) info["ref"] = true;
		if (t.isConstQualified()) info["const"] = true;
		if (t->isPointerType()) info["ptr"] = true;
		if (const Expr* init = v->getInit())
		{
			if (t->isReferenceType())
			{
				// lifetime-extended temporaries live to the end of the enclosing scope
				Cleanup* mark = top;
				const Expr* s = init;
				const ExprWithCleanups* ewc = dyn_cast<ExprWithCleanups>(s);
				if (ewc) s = ewc->getSubExpr();
				Value r = ev(s);
				// find extended temporaries: conservatively, the top temp (if it is the value) is extended
				std::vector<Cleanup*> temps;
				for (Cleanup* c = top; c != mark; c = c->parent) temps.push_back(c);
				bool extend = false;
				if (auto* mt = findExtended(init)) { (void)mt; extend = true; }
				if (!extend) popTo(mark);
				else
				{
					// keep only the cleanup whose object is r
					std::vector<Cleanup*> keep;
					Cleanup* saved = top;
					(void)saved;
					while (top != mark)
					{
						Cleanup* c = top; top = c->parent;
						if (c->obj == r) keep.push_back(c);
						else if (cur >= 0 && c->k == Cleanup::Var) emit(dtorOp(c));
					}
					for (auto* c : keep)
					{
						Cleanup* n = push(Cleanup::Var);
						n->obj = c->obj; n->dtor = c->dtor; n->line = c->line;
					}
				}
				info["init"] = r;
				emit(Object{{"op", "bind"}, {"p", me}, {"v", r}, {"l", X.line(v->getLocation())}});
			}
			else
			{
				Value r = evInto(init, me);
				if (!recOf(t) || !(r == me))
				{
					info["init"] = r;
					wr(me, r, v->getLocation());
				}
				if (const CXXDestructorDecl* d = nontrivialDtor(t))
				{
					Cleanup* c = push(Cleanup::Var);
					c->obj = me; c->dtor = d; c->line = X.line(v->getLocation()); c->vd = v;
				}
			}
		}
		else if (const CXXDestructorDecl* d = nontrivialDtor(t))
		{
			Cleanup* c = push(Cleanup::Var);
			c->obj = me; c->dtor = d; c->line = X.line(v->getLocation());
		}
		std::string k = key.getAsString()->str();
		vars[k] = std::move(info);
		if (auto* dd = dyn_cast<DecompositionDecl>(v)) (void)dd;
	}
	const MaterializeTemporaryExpr* findExtended(const Stmt* s)
	{
		if (!s) return nullptr;
		if (auto* m = dyn_cast<MaterializeTemporaryExpr>(s))
			if (m->getExtendingDecl()) return m;
		if (isa<LambdaExpr>(s)) return nullptr;
		for (const Stmt* c : s->children())
			if (auto* r = findExtended(c)) return r;
		return nullptr;
	}

	void stmt(const Stmt* s)
	{
		if (!s) return;
		switch (s->getStmtClass())
		{
		case Stmt::CompoundStmtClass:
			{
				Cleanup* mark = top;
				for (const Stmt* c : cast<CompoundStmt>(s)->body()) stmt(c);
				popTo(mark);
				return;
			}
		case Stmt::DeclStmtClass:
			for (const Decl* d : cast<DeclStmt>(s)->decls())
				if (auto* v = dyn_cast<VarDecl>(d)) declVar(v);
			return;
		case Stmt::NullStmtClass: return;
		case Stmt::IfStmtClass:
			{
				auto* i = cast<IfStmt>(s);
				Cleanup* mark = top;
				if (i->getInit()) stmt(i->getInit());
				if (i->getConditionVariable()) declVar(i->getConditionVariable());
				int t = label(), f = label(), j = label();
				cond(i->getCond(), t, f);
				Cleanup* inner = top;
				at(t); { Cleanup* m = top; stmt(i->getThen()); popTo(m); } go(j);
				top = inner;
				at(f); if (i->getElse()) { Cleanup* m = top; stmt(i->getElse()); popTo(m); } go(j);
				at(j);
				popTo(mark);
				return;
			}
		case Stmt::WhileStmtClass:
			{
				auto* w = cast<WhileStmt>(s);
				int head = newNode(Object{{"op", "nop"}, {"loop", true}, {"l", X.line(w->getBeginLoc())}});
				int b = label(), x = label(), e = label();
				go(head);
				at(head);
				Cleanup* mark = top;
				if (w->getConditionVariable()) declVar(w->getConditionVariable());
				cond(w->getCond(), b, x);
				Cleanup* inner = top;
				at(b);
				breaks.push_back({e, mark}); conts.push_back({head, mark});
				{ Cleanup* m = top; stmt(w->getBody()); popTo(m); }
				unwindNormal(mark); go(head);
				breaks.pop_back(); conts.pop_back();
				top = inner;
				at(x); popTo(mark); go(e);
				at(e);
				top = mark;
				return;
			}
		case Stmt::DoStmtClass:
			{
				auto* d = cast<DoStmt>(s);
				int head = newNode(Object{{"op", "nop"}, {"loop", true}, {"l", X.line(d->getBeginLoc())}});
				int c = label(), e = label();
				go(head); at(head);
				breaks.push_back({e, top}); conts.push_back({c, top});
				{ Cleanup* m = top; stmt(d->getBody()); popTo(m); }
				breaks.pop_back(); conts.pop_back();
				go(c); at(c);
				cond(d->getCond(), head, e);
				at(e);
				return;
			}
		case Stmt::ForStmtClass:
			{
				auto* f = cast<ForStmt>(s);
				Cleanup* mark = top;
				if (f->getInit()) stmt(f->getInit());
				int head = newNode(Object{{"op", "nop"}, {"loop", true}, {"l", X.line(f->getBeginLoc())}});
				int b = label(), inc = label(), x = label(), e = label();
				go(head); at(head);
				Cleanup* m0 = top;
				if (f->getConditionVariable()) declVar(f->getConditionVariable());
				if (f->getCond()) cond(f->getCond(), b, x); else go(b);
				Cleanup* inner = top;
				at(b);
				breaks.push_back({e, m0}); conts.push_back({inc, m0});
				{ Cleanup* m = top; stmt(f->getBody()); popTo(m); }
				unwindNormal(m0); go(inc);
				breaks.pop_back(); conts.pop_back();
				top = inner; at(x); popTo(m0); go(e);
				top = m0;
				at(inc); if (f->getInc()) ev(f->getInc()); go(head);
				at(e);
				popTo(mark);
				return;
			}
		case Stmt::CXXForRangeStmtClass:
			{
				auto* f = cast<CXXForRangeStmt>(s);
				Cleanup* mark = top;
				if (f->getInit()) stmt(f->getInit());
				stmt(f->getRangeStmt());
				stmt(f->getBeginStmt());
				stmt(f->getEndStmt());
				int head = newNode(Object{{"op", "nop"}, {"loop", true}, {"l", X.line(f->getBeginLoc())}});
				int b = label(), inc = label(), e = label();
				go(head); at(head);
				cond(f->getCond(), b, e);
				Cleanup* m0 = top;
				at(b);
				breaks.push_back({e, m0}); conts.push_back({inc, m0});
				stmt(f->getLoopVarStmt());
				{ Cleanup* m = top; stmt(f->getBody()); popTo(m); }
				popTo(m0);
				go(inc);
				breaks.pop_back(); conts.pop_back();
				at(inc); ev(f->getInc()); go(head);
				at(e);
				popTo(mark);
				return;
			}
		case Stmt::SwitchStmtClass:
			{
				auto* sw = cast<SwitchStmt>(s);
				Cleanup* mark = top;
				if (sw->getInit()) stmt(sw->getInit());
				if (sw->getConditionVariable()) declVar(sw->getConditionVariable());
				Value c = ev(sw->getCond());
				int n = emit(Object{{"op", "switch"}, {"c", c}, {"l", X.line(sw->getBeginLoc())}, {"t", X.typeStr(sw->getCond()->IgnoreImpCasts()->getType())}});
				cur = -1;
				int e = label();
				std::map<const SwitchCase*, int> labels;
				Array cases;
				bool hasDef = false;
				std::vector<const SwitchCase*> list;
				for (const SwitchCase* k = sw->getSwitchCaseList(); k; k = k->getNextSwitchCase()) list.push_back(k);
				std::reverse(list.begin(), list.end());
				for (const SwitchCase* k : list)
				{
					int l = label();
					labels[k] = l;
					nodes[n].succ.push_back(l);
					if (auto* ck = dyn_cast<CaseStmt>(k))
					{
						Expr::EvalResult r;
						Value nm = nullptr;
						const Expr* le = ck->getLHS()->IgnoreParenCasts();
						if (auto* kce = dyn_cast<ConstantExpr>(le)) le = kce->getSubExpr()->IgnoreParenCasts();
						if (auto* dr = dyn_cast<DeclRefExpr>(le)) nm = X.qname(dr->getDecl());
						int64_t val = 0;
						if (ck->getLHS()->EvaluateAsInt(r, C)) val = i64(r.Val.getInt());
						cases.push_back(Array{val, nm});
					}
					else { hasDef = true; cases.push_back("default"); }
				}
				if (!hasDef) { nodes[n].succ.push_back(e); cases.push_back("none"); }
				nodes[n].o["cases"] = std::move(cases);
				breaks.push_back({e, top});
				swLabels.push_back(&labels);
				cur = -1;
				{ Cleanup* m = top; stmt(sw->getBody()); popTo(m); }
				swLabels.pop_back();
				breaks.pop_back();
				go(e);
				at(e);
				popTo(mark);
				return;
			}
		case Stmt::CaseStmtClass: case Stmt::DefaultStmtClass:
			{
				auto* k = cast<SwitchCase>(s);
				int l = swLabels.empty() ? -1 : (swLabels.back()->count(k) ? (*swLabels.back())[k] : -1);
				if (l >= 0) { go(l); at(l); }
				stmt(k->getSubStmt());
				return;
			}
		case Stmt::BreakStmtClass: if (!breaks.empty()) { unwindNormal(breaks.back().level); go(breaks.back().target); } return;
		case Stmt::ContinueStmtClass: if (!conts.empty()) { unwindNormal(conts.back().level); go(conts.back().target); } return;
		case Stmt::ReturnStmtClass:
			{
				auto* r = cast<ReturnStmt>(s);
				Value v = nullptr;
				if (r->getRetValue())
				{
					if (recOf(r->getRetValue()->getType()) && !F->getReturnType()->isReferenceType())
					{
						Value tgt = Array{"ret"};
						v = evInto(r->getRetValue(), tgt);
					}
					else
					{
						Cleanup* mark = top;
						const Expr* e = r->getRetValue();
						if (auto* ewc = dyn_cast<ExprWithCleanups>(e)) e = ewc->getSubExpr();
						v = ev(e);
						popTo(mark);
					}
				}
				emit(Object{{"op", "ret"}, {"v", v}, {"l", X.line(r->getBeginLoc())}});
				unwindNormal(baseLevel);
				go(finalNode >= 0 ? finalNode : exitNode);
				return;
			}
		case Stmt::CXXTryStmtClass:
			{
				auto* t = cast<CXXTryStmt>(s);
				int j = label();
				Array types;
				std::vector<int> hl;
				bool catchAll = false;
				for (unsigned i = 0; i < t->getNumHandlers(); ++i)
				{
					auto* h = t->getHandler(i);
					if (h->getCaughtType().isNull()) { types.push_back("..."); catchAll = true; }
					else types.push_back(X.typeStr(h->getCaughtType().getNonReferenceType().getUnqualifiedType()));
					hl.push_back(label());
				}
				int disp = newNode(Object{{"op", "catch"}, {"types", std::move(types)}, {"l", X.line(t->getBeginLoc())}});
				for (int h : hl) nodes[disp].succ.push_back(h);
				if (!catchAll) nodes[disp].succ.push_back(unwindOf(top));
				nodes[disp].o["all"] = catchAll;
				Cleanup* mark = top;
				Cleanup* c = push(Cleanup::Catch);
				c->catchNode = disp;
				stmt(t->getTryBlock());
				top = mark;
				go(j);
				for (unsigned i = 0; i < t->getNumHandlers(); ++i)
				{
					auto* h = t->getHandler(i);
					at(hl[i]);
					emit(Object{{"op", "enter_catch"}, {"t", h->getCaughtType().isNull() ? std::string("...") : X.typeStr(h->getCaughtType().getNonReferenceType().getUnqualifiedType())}, {"l", X.line(h->getBeginLoc())}, {"v", h->getExceptionDecl() && h->getExceptionDecl()->getDeclName() ? Value(varKey(h->getExceptionDecl())) : Value(nullptr)}});
					if (h->getExceptionDecl())
					{
						Object info{{"t", X.typeStr(h->getExceptionDecl()->getType())}, {"n", h->getExceptionDecl()->getNameAsString()}, {"exc", true}};
						std::string k = varKey(h->getExceptionDecl()).getAsString()->str();
						vars[k] = std::move(info);
					}
					Cleanup* m = top;
					stmt(h->getHandlerBlock());
					popTo(m);
					go(j);
				}
				at(j);
				return;
			}
		case Stmt::AttributedStmtClass: stmt(cast<AttributedStmt>(s)->getSubStmt()); return;
		case Stmt::LabelStmtClass: stmt(cast<LabelStmt>(s)->getSubStmt()); return;
		case Stmt::GotoStmtClass: emit(Object{{"op", "goto"}}); return;
		case Stmt::GCCAsmStmtClass: emit(Object{{"op", "asm"}}); return;
		default:
			if (auto* e = dyn_cast<Expr>(s))
			{
				Cleanup* mark = top;
				ev(e);
				popTo(mark);
				return;
			}
			for (const Stmt* c : s->children()) stmt(c);
			return;
		}
	}
	std::vector<std::map<const SwitchCase*, int>*> swLabels;
	Cleanup* baseLevel = nullptr;
	int finalNode = -1;

	void run()
	{
		int entry = label();
		baseLevel = top;
		at(entry);
		const CXXRecordDecl* rec = nullptr;
		if (auto* m = dyn_cast<CXXMethodDecl>(F)) rec = m->getParent();
		if (auto* cd = dyn_cast<CXXConstructorDecl>(F))
		{
			for (auto* init : cd->inits())
			{
				if (init->isBaseInitializer())
				{
					Cleanup* mark = top;
					std::string bn = init->getBaseClass() ? (recOf(QualType(init->getBaseClass(), 0)) ? X.recName(recOf(QualType(init->getBaseClass(), 0))) : "") : "";
					(void)bn;
					evInto(init->getInit(), Array{"this"});
					popTo(mark);
				}
				else if (init->isDelegatingInitializer())
				{
					Cleanup* mark = top;
					evInto(init->getInit(), Array{"this"});
					popTo(mark);
				}
				else if (FieldDecl* f = init->getAnyMember())
				{
					Cleanup* mark = top;
					const CXXRecordDecl* r = dyn_cast<CXXRecordDecl>(f->getParent());
					Value tgt = Array{"fld", Array{"this"}, f->getNameAsString(), r ? X.recName(r) : ""};
					Value v = evInto(init->getInit(), tgt);
					bool ref = f->getType()->isReferenceType();
					if (!(v == tgt))
					{
						Object o{{"op", "wr"}, {"p", tgt}, {"v", v}, {"l", X.line(init->getSourceLocation())}, {"init", true}};
						if (ref) o["ref"] = true;
						emit(std::move(o));
					}
					popTo(mark);
				}
			}
			// implicit / defaulted copy & move constructors carry their initialisers in inits() when defined
		}
		bool isDtor = isa<CXXDestructorDecl>(F);
		int fin = -1;
		if (isDtor) { fin = label(); finalNode = fin; }
		if (const Stmt* b = F->getBody())
			stmt(b);
		if (isDtor)
		{
			go(fin); at(fin);
			// members in reverse order, then bases
			std::vector<const FieldDecl*> fs;
			for (auto* f : rec->fields()) fs.push_back(f);
			for (auto it = fs.rbegin(); it != fs.rend(); ++it)
				if (const CXXDestructorDecl* d = nontrivialDtor((*it)->getType()))
				{
					Object o{{"op", "call"}, {"k", "dtor"}, {"member", true}, {"obj", Array{"fld", Array{"this"}, (*it)->getNameAsString(), X.recName(rec)}}, {"l", X.line(F->getLocation())}, {"args", Array{}}};
					fillCallee(o, d);
					emit(std::move(o));
				}
			for (auto& b : rec->bases())
				if (const CXXRecordDecl* br = recOf(b.getType()))
					if (!br->hasTrivialDestructor() && br->getDestructor())
					{
						Object o{{"op", "call"}, {"k", "dtor"}, {"base", true}, {"obj", Array{"this"}}, {"l", X.line(F->getLocation())}, {"args", Array{}}};
						fillCallee(o, br->getDestructor());
						emit(std::move(o));
					}
		}
		popTo(baseLevel);
		go(exitNode);

		// ---- output
		Object o{{"kind", "fn"}, {"id", X.id(F)}, {"n", X.qname(F)}, {"entry", entry}, {"exit", exitNode}, {"ehexit", ehExitNode}};
		auto l = X.loc(F->getLocation());
		o["f"] = l.first; o["l"] = l.second;
		o["ret"] = X.typeStr(F->getReturnType());
		if (rec) { o["cls"] = X.recName(rec); X.emitRecord(rec); }
		if (auto* m = dyn_cast<CXXMethodDecl>(F))
		{
			o["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
			if (m->isStatic()) o["static"] = true;
			if (m->isConst()) o["const"] = true;
			if (m->isVirtual()) o["virt"] = true;
			if (m->isCopyAssignmentOperator()) o["assign"] = "copy";
			if (m->isMoveAssignmentOperator()) o["assign"] = "move";
			if (m->isDefaulted()) o["defaulted"] = true;
			if (m->isImplicit()) o["implicit"] = true;
			Array ov;
			for (auto* b : m->overridden_methods()) { ov.push_back(X.id(b)); }
			if (!ov.empty()) o["over"] = std::move(ov);
		}
		if (F->isTemplateInstantiation()) o["inst"] = true;
		o["fk"] = isa<CXXConstructorDecl>(F) ? "ctor" : isDtor ? "dtor" : isLambda ? "lambda" : rec ? "method" : "func";
		if (isLambda)
		{
			const DeclContext* dc = cast<CXXMethodDecl>(F)->getParent()->getDeclContext();
			while (dc && !isa<FunctionDecl>(dc)) dc = dc->getParent();
			if (dc) o["encl"] = X.id(cast<FunctionDecl>(dc));
		}
		if (auto* cd = dyn_cast<CXXConstructorDecl>(F)) if (cd->isCopyOrMoveConstructor()) o["cm"] = cd->isMoveConstructor() ? "move" : "copy";
		if (auto* t = F->getType()->getAs<FunctionProtoType>())
			if (t->getExceptionSpecType() != EST_Unevaluated && t->getExceptionSpecType() != EST_Uninstantiated && t->isNothrow()) o["nt"] = true;
		if (F->isNoReturn()) o["noret"] = true;
		if (F->getFormalLinkage() == Linkage::Internal) o["internal"] = true;
		Array ps;
		for (auto* p : F->parameters())
		{
			Object po{{"n", p->getNameAsString()}, {"t", X.typeStr(p->getType())}};
			if (const CXXRecordDecl* r = recOf(p->getType())) po["rec"] = X.recName(r);
			if (p->getType()->isReferenceType()) po["ref"] = true;
			if (p->getType()->isRValueReferenceType()) po["rref"] = true;
			ps.push_back(std::move(po));
		}
		o["params"] = std::move(ps);
		o["vars"] = std::move(vars);

		// prune unreachable, collapse
		std::vector<char> reach(nodes.size(), 0);
		std::vector<int> st{entry};
		reach[entry] = 1;
		reach[exitNode] = reach[ehExitNode] = 1;
		while (!st.empty())
		{
			int n = st.back(); st.pop_back();
			auto vis = [&](int m) { if (m >= 0 && !reach[m]) { reach[m] = 1; st.push_back(m); } };
			for (int m : nodes[n].succ) vis(m);
			vis(nodes[n].eh);
		}
		std::vector<int> remap(nodes.size(), -1);
		int k = 0;
		for (size_t i = 0; i < nodes.size(); ++i) if (reach[i]) remap[i] = k++;
		Array ns;
		for (size_t i = 0; i < nodes.size(); ++i)
		{
			if (!reach[i]) continue;
			Object n = std::move(nodes[i].o);
			Array su;
			for (int m : nodes[i].succ) su.push_back(remap[m]);
			n["s"] = std::move(su);
			if (nodes[i].eh >= 0) n["eh"] = remap[nodes[i].eh];
			ns.push_back(std::move(n));
		}
		o["entry"] = remap[entry]; o["exit"] = remap[exitNode]; o["ehexit"] = remap[ehExitNode];
		o["nodes"] = std::move(ns);
		X.out(std::move(o));
	}
};

void Ctx::emitRecord(const CXXRecordDecl* r)
{
	r = r->getDefinition();
	if (!r || !recsDone.insert(r).second || r->isDependentContext()) return;
	if (!inRoot(r->getLocation())) return;
	Object o{{"kind", "rec"}, {"n", recName(r)}};
	auto l = loc(r->getLocation());
	o["f"] = l.first; o["l"] = l.second;
	Array fs;
	for (auto* f : r->fields())
	{
		Object fo{{"n", f->getNameAsString()}, {"t", typeStr(f->getType())}, {"l", line(f->getLocation())}};
		if (const CXXRecordDecl* fr = recOf(f->getType())) fo["rec"] = recName(fr);
		if (f->isMutable()) fo["mutable"] = true;
		if (f->getType().isConstQualified()) fo["const"] = true;
		if (f->getType()->isReferenceType()) fo["ref"] = true;
		fs.push_back(std::move(fo));
	}
	o["fields"] = std::move(fs);
	Array bs;
	for (auto& b : r->bases())
		if (const CXXRecordDecl* br = recOf(b.getType())) bs.push_back(Object{{"n", recName(br)}, {"virt", b.isVirtual()}});
	o["bases"] = std::move(bs);
	if (auto* d = r->getDestructor())
	{
		o["dtor"] = id(d);
		o["dtor_user"] = d->isUserProvided();
		o["dtor_virtual"] = d->isVirtual();
	}
	if (r->isUnion()) o["union"] = true;
	if (r->isPolymorphic()) o["poly"] = true;
	Array ms;
	for (auto* m : r->methods())
	{
		Object mo{{"n", m->getNameAsString()}, {"id", id(m)}, {"acc", m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private"}};
		if (m->isStatic()) mo["static"] = true;
		if (m->isConst()) mo["const"] = true;
		if (m->isVirtual()) mo["virt"] = true;
		if (m->isPureVirtual()) mo["pure"] = true;
		if (m->isImplicit()) mo["implicit"] = true;
		if (m->isDeleted()) mo["deleted"] = true;
		if (m->isCopyAssignmentOperator()) mo["assign"] = "copy";
		if (m->isMoveAssignmentOperator()) mo["assign"] = "move";
		if (auto* c = dyn_cast<CXXConstructorDecl>(m)) { if (c->isCopyConstructor()) mo["ctor"] = "copy"; else if (c->isMoveConstructor()) mo["ctor"] = "move"; else mo["ctor"] = "other"; }
		ms.push_back(std::move(mo));
	}
	o["methods"] = std::move(ms);
	for (auto* f : r->fields())
		if (const CXXRecordDecl* fr = recOf(f->getType())) emitRecord(fr);
	out(std::move(o));
}

void Ctx::emitFunction(const FunctionDecl* f)
{
	if (!f || f->isDependentContext()) return;
	if (f->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) return;
	if (!inRoot(f->getLocation()))
		return;
	const FunctionDecl* def = nullptr;
	if (f->hasBody(def) && def) f = def;
	else if (auto* d = dyn_cast<CXXDestructorDecl>(f)) { if (d->isUserProvided()) return; }
	else return;
	if (!done.insert(f->getCanonicalDecl()).second) return;
	if (f->isTemplated()) return;
	Lower l(*this, f);
	l.run();
}

class Vis : public RecursiveASTVisitor<Vis>
{
	Ctx& X;
public:
	Vis(Ctx& x) : X(x) {}
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return true; }
	bool VisitFunctionDecl(FunctionDecl* f)
	{
		if (f->doesThisDeclarationHaveABody() && !f->isDependentContext()) X.emitFunction(f);
		return true;
	}
	bool VisitCXXRecordDecl(CXXRecordDecl* r)
	{
		if (r->isThisDeclarationADefinition() && !r->isDependentContext() && !r->isLambda())
		{
			X.emitRecord(r);
			if (X.inRoot(r->getLocation()) && !r->hasTrivialDestructor() && r->getDestructor())
				X.emitFunction(r->getDestructor());
		}
		return true;
	}
	bool VisitEnumDecl(EnumDecl* e)
	{
		if (e->isDependentContext() || !X.inRoot(e->getLocation()) || !e->isCompleteDefinition()) return true;
		if (!seen.insert(e).second) return true;
		Array v;
		for (auto* c : e->enumerators()) v.push_back(Array{X.qname(c), (int64_t)i64(c->getInitVal())});
		auto l = X.loc(e->getLocation());
		X.out(Object{{"kind", "enum"}, {"n", X.qname(e)}, {"v", std::move(v)}, {"f", l.first}, {"l", l.second}});
		return true;
	}
	bool VisitVarDecl(VarDecl* v)
	{
		// namespace-scope / static-member variables
		if (v->isLocalVarDeclOrParm() || isa<ParmVarDecl>(v)) return true;
		if (v->getDeclContext()->isDependentContext() || !X.inRoot(v->getLocation())) return true;
		if (!seen.insert(v->getCanonicalDecl()).second) return true;
		auto l = X.loc(v->getLocation());
		Object o{{"kind", "var"}, {"n", X.qname(v)}, {"t", X.typeStr(v->getType())}, {"f", l.first}, {"l", l.second}};
		if (v->getType().isConstQualified()) o["const"] = true;
		X.out(std::move(o));
		return true;
	}
	std::set<const Decl*> seen;
};

class Cons : public ASTConsumer
{
public:
	void HandleTranslationUnit(ASTContext& c) override
	{
		if (c.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "sgx: parse errors\n"; return; }
		std::error_code ec;
		llvm::raw_fd_ostream os(OutPath, ec);
		Ctx x(c, os);
		Vis v(x);
		v.TraverseDecl(c.getTranslationUnitDecl());
		x.drain();
		os.flush();
	}
};

class Act : public ASTFrontendAction
{
public:
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, StringRef) override
	{ return std::make_unique<Cons>(); }
};

int main(int argc, char** argv)
{
	// sgx OUT SRC --root DIR... --skip S... -- flags
	OutPath = argv[1];
	std::string src = argv[2];
	std::vector<std::string> flags;
	int i = 3;
	for (; i < argc; ++i)
	{
		std::string a = argv[i];
		if (a == "--") { ++i; break; }
		if (a == "--root" && i + 1 < argc) Roots.push_back(argv[++i]);
		if (a == "--skip" && i + 1 < argc) Skip.push_back(argv[++i]);
	}
	for (; i < argc; ++i) flags.push_back(argv[i]);
	tooling::FixedCompilationDatabase db(".", flags);
	tooling::ClangTool tool(db, {src});
	return tool.run(tooling::newFrontendActionFactory<Act>().get());
}

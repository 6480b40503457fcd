// build: see /verif/setup.sh
// factgen: runs the clang front end on one translation unit and writes, as JSON, the resolved program that the
// static rules in /verif/sa work on: every function of namespace coro (and a few small std helpers) as a control
// flow graph of LLVM instructions before coroutine splitting, with member names, resolved callees, unwind edges
// and source lines; plus the enums and record definitions of namespace coro.  Nothing is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Basic/SourceManager.h"
#include "clang/CodeGen/CodeGenABITypes.h"
#include "clang/CodeGen/ModuleBuilder.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/MultiplexConsumer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;

static std::string OutFile;

static bool inCoro(const Decl* d)
{
    for (const DeclContext* c = d->getDeclContext(); c; c = c->getParent())
        if (auto* ns = dyn_cast<NamespaceDecl>(c))
            if (ns->getName() == "coro" && ns->getParent()->getRedeclContext()->isTranslationUnit())
                return true;
    return false;
}

static std::string bareName(const NamedDecl* d)
{
    std::vector<std::string> parts;
    auto add = [&](const Decl* x) {
        if (auto* r = dyn_cast<CXXRecordDecl>(x))
        {
            if (r->isLambda()) parts.push_back("$lambda");
            else if (r->getName().empty()) parts.push_back("$anon");
            else parts.push_back(r->getName().str());
        }
        else if (auto* f = dyn_cast<FunctionDecl>(x))
        {
            if (isa<CXXConstructorDecl>(f)) parts.push_back("$ctor");
            else if (isa<CXXDestructorDecl>(f)) parts.push_back("$dtor");
            else if (isa<CXXConversionDecl>(f)) parts.push_back("$conv");
            else parts.push_back(f->getDeclName().getAsString());
        }
        else if (auto* n = dyn_cast<NamespaceDecl>(x))
        {
            if (n->isInline()) return;
            parts.push_back(n->isAnonymousNamespace() ? "$anon" : n->getName().str());
        }
        else if (auto* e = dyn_cast<NamedDecl>(x))
            parts.push_back(e->getNameAsString());
    };
    add(d);
    for (const DeclContext* c = d->getDeclContext(); c && !c->isTranslationUnit(); c = c->getParent())
        add(Decl::castFromDeclContext(c));
    std::string s;
    for (auto it = parts.rbegin(); it != parts.rend(); ++it)
    {
        if (!s.empty()) s += "::";
        s += *it;
    }
    return s;
}

struct Ctx
{
    ASTContext*                              ast{nullptr};
    clang::CodeGenerator*                    cg{nullptr};
    struct Rec { std::string name; const CXXRecordDecl* d; std::vector<std::pair<uint64_t, const FieldDecl*>> fields; };
    std::map<std::string, Rec>               recs; // llvm struct name -> record
    std::vector<const CXXRecordDecl*>        allRecords;
    std::vector<const EnumDecl*>             enums;
    std::vector<std::pair<std::string, std::string>> texts; // variable with static storage -> the literal it is made from
};

// Marks every function with a body in namespace coro as used, so that code is generated for inline members as well.
class ForceEmit : public ASTConsumer, public RecursiveASTVisitor<ForceEmit>
{
public:
    ASTContext* C{nullptr};
    void        Initialize(ASTContext& c) override { C = &c; }
    bool        shouldVisitTemplateInstantiations() const { return true; }
    void        mark(FunctionDecl* f)
    {
        if (!f || f->isDependentContext() || f->isDeleted() || f->isConsteval()) return;
        if (!inCoro(f)) return;
        if (!f->hasAttr<UsedAttr>()) f->addAttr(UsedAttr::CreateImplicit(*C));
    }
    bool VisitFunctionDecl(FunctionDecl* f)
    {
        if (f->isThisDeclarationADefinition()) mark(f);
        return true;
    }
    bool HandleTopLevelDecl(DeclGroupRef g) override
    {
        for (Decl* d : g) TraverseDecl(d);
        return true;
    }
    void HandleInlineFunctionDefinition(FunctionDecl* f) override { mark(f); }
};

class CollectTypes : public RecursiveASTVisitor<CollectTypes>
{
public:
    Ctx& X;
    explicit CollectTypes(Ctx& x) : X(x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitLambdaExpr(LambdaExpr* l)
    {
        add(l->getLambdaClass());
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r)
    {
        add(r);
        return true;
    }
    bool VisitEnumDecl(EnumDecl* e)
    {
        if (inCoro(e) && e->isCompleteDefinition() && !e->isDependentContext()) X.enums.push_back(e);
        return true;
    }
    static const StringLiteral* literal(const Stmt* s)
    {
        if (!s) return nullptr;
        if (auto* l = dyn_cast<StringLiteral>(s)) return l;
        for (auto* c : s->children())
            if (auto* l = literal(c)) return l;
        return nullptr;
    }
    bool VisitVarDecl(VarDecl* v)
    {
        if (inCoro(v) && v->hasGlobalStorage() && v->getInit() && !v->getDeclContext()->isDependentContext())
            if (auto* l = literal(v->getInit()); l && l->getCharByteWidth() == 1) X.texts.emplace_back(v->getQualifiedNameAsString(), l->getString().str());
        return true;
    }
    std::set<const CXXRecordDecl*> seen;
    void add(CXXRecordDecl* r)
    {
        if (!r) return;
        r = r->getDefinition();
        if (!r || r->isDependentContext() || r->isInvalidDecl() || !r->isCompleteDefinition()) return;
        if (!seen.insert(r).second) return;
        X.allRecords.push_back(r);
    }
};

static std::string typeStr(QualType t, ASTContext& A)
{
    PrintingPolicy p(A.getLangOpts());
    p.SuppressInlineNamespace = 1;
    p.SuppressTagKeyword = 1;
    return t.getCanonicalType().getAsString(p);
}

static bool wantFunction(const std::string& q, size_t nargs, bool coro)
{
    if (coro) return true;
    // the predicate forms are loops around the plain form
    if ((q == "std::condition_variable::wait" || q == "std::condition_variable_any::wait") && nargs == 3) return true;
    static const char* names[] = {
        "std::move", "std::forward", "std::exchange", "std::__exchange", "std::swap", "std::addressof", "std::__addressof", "std::unique_lock::",
        "std::scoped_lock::", "std::lock_guard::", "std::as_const", "std::forward_like",
        // nodes below are walked so that callables of namespace coro stay visible
        "std::invoke", "std::apply", "std::__apply_impl", "std::__invoke", "std::__invoke_impl", "std::for_each", "std::ranges::for_each", "std::launder", "std::to_address",
        "std::max", "std::min", "std::array::data", "std::array::operator[]", "std::array::size", "std::array::at", "std::__array_traits", "std::array::begin", "std::array::end", "std::array::_M",
        "std::span::", "std::__detail::__extent_storage::", "std::as_bytes", "std::as_writable_bytes", "std::pair::$ctor"};
    for (auto* n : names)
    {
        size_t l = strlen(n);
        if (q == n || (n[l - 1] == ':' && q.compare(0, l, n) == 0)) return true;
    }
    return false;
}

class Dump : public ASTConsumer
{
public:
    CompilerInstance& CI;
    clang::CodeGenerator* CG;
    explicit Dump(CompilerInstance& ci, clang::CodeGenerator* cg) : CI(ci), CG(cg) {}

    std::map<std::string, int> fileIdx;
    std::vector<std::string>   files;
    Ctx                        X;
    const llvm::DataLayout*    DL{nullptr};

    int fidx(llvm::StringRef dir, llvm::StringRef f)
    {
        std::string p = f.startswith("/") ? f.str() : (dir.str() + "/" + f.str());
        auto        it = fileIdx.find(p);
        if (it != fileIdx.end()) return it->second;
        int i = files.size();
        files.push_back(p);
        fileIdx[p] = i;
        return i;
    }

    void step(std::string& out, llvm::StructType* st, unsigned idx)
    {
        if (st->hasName())
        {
            auto it = X.recs.find(st->getName().str());
            if (it != X.recs.end())
            {
                uint64_t off = DL->getStructLayout(st)->getElementOffset(idx);
                const FieldDecl* hit = nullptr;
                for (auto& f : it->second.fields)
                    if (f.first == off)
                    {
                        hit = f.second;
                        if (!f.second->getType()->isRecordType() || !f.second->isZeroSize(*X.ast)) break;
                    }
                if (hit)
                {
                    if (hit->getName().empty())
                        out = it->second.name + "::$f" + std::to_string(hit->getFieldIndex());
                    else
                        out = it->second.name + "::" + hit->getName().str();
                    return;
                }
                out = it->second.name + "::#" + std::to_string(idx);
                return;
            }
            out = st->getName().str() + "#" + std::to_string(idx);
            return;
        }
        out = "#" + std::to_string(idx);
    }

    struct FnCtx { std::map<const llvm::Value*, int> ids; std::map<const llvm::BasicBlock*, int> bbs; };

    json::Value val(FnCtx& F, const llvm::Value* v)
    {
        auto it = F.ids.find(v);
        if (it != F.ids.end()) return it->second;
        if (auto* ci = dyn_cast<llvm::ConstantInt>(v))
        {
            if (ci->getBitWidth() == 1) return json::Object{{"c", (int64_t)ci->getZExtValue()}, {"w", 1}};
            if (ci->getBitWidth() <= 64) return json::Object{{"c", ci->getSExtValue()}, {"w", ci->getBitWidth()}};
            return json::Object{{"u", 1}};
        }
        if (isa<llvm::ConstantPointerNull>(v)) return json::Object{{"n", 1}};
        if (isa<llvm::UndefValue>(v)) return json::Object{{"u", 1}};
        if (isa<llvm::ConstantAggregateZero>(v)) return json::Object{{"z", 1}};
        if (auto* cf = dyn_cast<llvm::ConstantFP>(v))
        {
            llvm::SmallString<32> s;
            cf->getValueAPF().toString(s);
            return json::Object{{"cf", s.str().str()}};
        }
        if (isa<llvm::Function>(v)) return json::Object{{"fn", v->getName().str()}};
        if (auto* g = dyn_cast<llvm::GlobalVariable>(v))
        {
            if (g->hasInitializer() && g->isConstant())
                if (auto* cds = dyn_cast<llvm::ConstantDataSequential>(g->getInitializer()))
                    if (cds->isString())
                        return json::Object{{"s", json::fixUTF8(cds->getAsString().take_front(200).rtrim('\0'))}};
            std::string n = g->getName().str();
            if (auto* d = CG->GetDeclForMangledName(g->getName()))
                if (auto* nd = dyn_cast<NamedDecl>(d)) n = bareName(nd);
            if (!g->isConstant() && g->hasLocalLinkage()) n += "{tu}"; // each translation unit has its own
            if (g->hasInitializer() && g->isConstant())
            {
                // what a constant holds is known
                auto* in = g->getInitializer();
                if (isa<llvm::ConstantInt>(in) || isa<llvm::ConstantPointerNull>(in) || (isa<llvm::GlobalVariable>(in) && in != g))
                    return json::Object{{"g", n}, {"gi", val(F, in)}};
            }
            return json::Object{{"g", n}};
        }
        if (auto* ga = dyn_cast<llvm::GlobalAlias>(v)) return json::Object{{"fn", ga->getAliasee()->getName().str()}};
        if (auto* ce = dyn_cast<llvm::ConstantExpr>(v))
        {
            if (ce->getOpcode() == llvm::Instruction::GetElementPtr)
            {
                json::Array st;
                gepSteps(F, cast<llvm::GEPOperator>(ce), st);
                return json::Object{{"ge", json::Array{val(F, ce->getOperand(0)), std::move(st)}}};
            }
            if (ce->isCast()) return val(F, ce->getOperand(0));
        }
        return json::Object{{"u", 1}};
    }

    void gepSteps(FnCtx& F, const llvm::GEPOperator* g, json::Array& st)
    {
        llvm::Type* srcT = g->getSourceElementType();
        auto        idx  = g->idx_begin();
        // first index
        if (auto* c = dyn_cast<llvm::ConstantInt>(*idx))
        {
            if (!c->isZero())
            {
                if (srcT->isIntegerTy(8)) st.push_back("+" + std::to_string(c->getSExtValue()));
                else st.push_back("[" + std::to_string(c->getSExtValue()) + "]");
            }
        }
        else
            st.push_back(json::Array{"idx", val(F, *idx)});
        llvm::Type* t = srcT;
        for (++idx; idx != g->idx_end(); ++idx)
        {
            if (auto* s = dyn_cast<llvm::StructType>(t))
            {
                unsigned    i = cast<llvm::ConstantInt>(*idx)->getZExtValue();
                std::string n;
                step(n, s, i);
                st.push_back(n);
                t = s->getElementType(i);
            }
            else
            {
                if (auto* c = dyn_cast<llvm::ConstantInt>(*idx)) st.push_back("[" + std::to_string(c->getSExtValue()) + "]");
                else st.push_back(json::Array{"idx", val(F, *idx)});
                t = cast<llvm::ArrayType>(t)->getElementType();
            }
        }
    }

    std::string structName(llvm::Type* t)
    {
        if (auto* s = dyn_cast<llvm::StructType>(t))
        {
            if (s->hasName())
            {
                auto it = X.recs.find(s->getName().str());
                if (it != X.recs.end()) return it->second.name;
                return s->getName().str();
            }
        }
        std::string              o;
        llvm::raw_string_ostream os(o);
        t->print(os, false, true);
        return os.str();
    }

    json::Value dumpFn(llvm::Function& f, const FunctionDecl* fd, const std::string& q)
    {
        FnCtx F;
        int   n = 0, b = 0;
        json::Array args;
        for (auto& a : f.args())
        {
            F.ids[&a] = n;
            std::string kind;
            if (a.hasStructRetAttr()) kind = "sret";
            else if (a.hasByValAttr()) kind = "byval";
            json::Object ao{{"id", n}, {"k", kind}};
            if (a.hasName()) ao["n"] = a.getName().str();
            args.push_back(std::move(ao));
            ++n;
        }
        for (auto& bb : f)
        {
            F.bbs[&bb] = b++;
            for (auto& i : bb) F.ids[&i] = n++;
        }
        json::Array blocks;
        int         lastLine = 0, lastFile = 0;
        if (auto* sp = f.getSubprogram()) { lastLine = sp->getLine(); lastFile = fidx(sp->getDirectory(), sp->getFilename()); }
        for (auto& bb : f)
        {
            json::Array is;
            for (auto& i : bb)
            {
                if (isa<llvm::DbgInfoIntrinsic>(i)) continue;
                json::Object o;
                if (auto& l = i.getDebugLoc())
                {
                    auto* sc = l->getScope();
                    if (l.getLine()) { lastLine = l.getLine(); lastFile = fidx(sc->getDirectory(), sc->getFilename()); }
                }
                o["l"] = json::Array{lastFile, lastLine};
                if (!i.getType()->isVoidTy()) o["d"] = F.ids[&i];
                if (i.getType()->isIntegerTy()) o["w"] = (int64_t)i.getType()->getIntegerBitWidth();
                auto ops = [&](unsigned from = 0) {
                    json::Array a;
                    for (unsigned k = from; k < i.getNumOperands(); ++k)
                        if (!isa<llvm::BasicBlock>(i.getOperand(k))) a.push_back(val(F, i.getOperand(k)));
                    return a;
                };
                if (auto* cb = dyn_cast<llvm::CallBase>(&i))
                {
                    o["o"] = "call";
                    if (auto* ia = dyn_cast<llvm::InlineAsm>(cb->getCalledOperand())) { (void)ia; o["f"] = json::Object{{"u", 1}}; }
                    else o["f"] = val(F, cb->getCalledOperand()->stripPointerCasts());
                    json::Array a;
                    for (auto& u : cb->args())
                    {
                        if (isa<llvm::MetadataAsValue>(u.get())) continue;
                        if (u->getType()->isTokenTy() && !F.ids.count(u.get())) { a.push_back(json::Object{{"u", 1}}); continue; }
                        a.push_back(val(F, u.get()));
                    }
                    o["a"] = std::move(a);
                    if (cb->doesNotThrow()) o["nu"] = 1;
                    if (cb->doesNotReturn()) o["nr"] = 1;
                    if (cb->arg_size() && cb->paramHasAttr(0, llvm::Attribute::StructRet)) o["sret"] = 1;
                    if (auto* iv = dyn_cast<llvm::InvokeInst>(cb))
                        o["inv"] = json::Array{F.bbs[iv->getNormalDest()], F.bbs[iv->getUnwindDest()]};
                }
                else if (auto* br = dyn_cast<llvm::BranchInst>(&i))
                {
                    o["o"] = "br";
                    json::Array t;
                    for (unsigned k = 0; k < br->getNumSuccessors(); ++k) t.push_back(F.bbs[br->getSuccessor(k)]);
                    o["t"] = std::move(t);
                    if (br->isConditional()) o["a"] = json::Array{val(F, br->getCondition())};
                }
                else if (auto* sw = dyn_cast<llvm::SwitchInst>(&i))
                {
                    o["o"] = "switch";
                    o["a"] = json::Array{val(F, sw->getCondition())};
                    json::Array cs;
                    for (auto& c : sw->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), F.bbs[c.getCaseSuccessor()]});
                    o["cs"] = std::move(cs);
                    o["df"] = F.bbs[sw->getDefaultDest()];
                }
                else if (auto* phi = dyn_cast<llvm::PHINode>(&i))
                {
                    o["o"] = "phi";
                    json::Array in;
                    for (unsigned k = 0; k < phi->getNumIncomingValues(); ++k)
                        in.push_back(json::Array{F.bbs[phi->getIncomingBlock(k)], val(F, phi->getIncomingValue(k))});
                    o["in"] = std::move(in);
                }
                else if (auto* g = dyn_cast<llvm::GetElementPtrInst>(&i))
                {
                    o["o"] = "gep";
                    o["a"] = json::Array{val(F, g->getPointerOperand())};
                    json::Array st;
                    gepSteps(F, cast<llvm::GEPOperator>(g), st);
                    o["st"] = std::move(st);
                }
                else if (auto* al = dyn_cast<llvm::AllocaInst>(&i))
                {
                    o["o"] = "alloca";
                    o["ty"] = structName(al->getAllocatedType());
                }
                else if (auto* ic = dyn_cast<llvm::ICmpInst>(&i))
                {
                    o["o"] = "icmp";
                    o["p"] = llvm::CmpInst::getPredicateName(ic->getPredicate()).str();
                    o["a"] = ops();
                }
                else if (isa<llvm::LandingPadInst>(i))
                {
                    auto& lp = cast<llvm::LandingPadInst>(i);
                    o["o"] = "landingpad";
                    if (lp.isCleanup()) o["cl"] = 1;
                    bool catchall = false;
                    for (unsigned k = 0; k < lp.getNumClauses(); ++k)
                        if (lp.isCatch(k) && isa<llvm::ConstantPointerNull>(lp.getClause(k))) catchall = true;
                    if (catchall) o["ca"] = 1;
                    o["nc"] = (int64_t)lp.getNumClauses();
                }
                else if (auto* ev = dyn_cast<llvm::ExtractValueInst>(&i))
                {
                    o["o"] = "extractvalue";
                    o["a"] = ops();
                    json::Array ix;
                    for (auto k : ev->indices()) ix.push_back((int64_t)k);
                    o["ix"] = std::move(ix);
                }
                else if (auto* iv2 = dyn_cast<llvm::InsertValueInst>(&i))
                {
                    o["o"] = "insertvalue";
                    o["a"] = ops();
                    json::Array ix;
                    for (auto k : iv2->indices()) ix.push_back((int64_t)k);
                    o["ix"] = std::move(ix);
                }
                else
                {
                    o["o"] = i.getOpcodeName();
                    o["a"] = ops();
                    if (auto* ld = dyn_cast<llvm::LoadInst>(&i)) { o["ty"] = structName(ld->getType()); if (ld->isAtomic()) o["at"] = 1; }
                    if (isa<llvm::StoreInst>(i) && cast<llvm::StoreInst>(i).isAtomic()) o["at"] = 1;
                }
                is.push_back(std::move(o));
            }
            blocks.push_back(std::move(is));
        }
        json::Object o;
        o["m"] = f.getName().str();
        o["q"] = q;
        o["dem"] = llvm::demangle(f.getName().str());
        if (auto* sp = f.getSubprogram()) o["loc"] = json::Array{fidx(sp->getDirectory(), sp->getFilename()), (int64_t)sp->getLine()};
        o["args"] = std::move(args);
        o["blocks"] = std::move(blocks);
        if (f.doesNotThrow()) o["nu"] = 1;
        if (f.isPresplitCoroutine()) o["coro"] = 1;
        o["rt"] = structName(f.getReturnType());
        if (fd)
        {
            json::Array ps;
            json::Array pt;
            for (auto* p : fd->parameters()) { ps.push_back(p->getNameAsString()); pt.push_back(typeStr(p->getType(), *X.ast)); }
            o["pn"] = std::move(ps);
            o["pt"] = std::move(pt);
            o["crt"] = typeStr(fd->getReturnType(), *X.ast);
            if (auto* m = dyn_cast<CXXMethodDecl>(fd))
            {
                o["meth"] = m->isStatic() ? 0 : 1;
                o["cls"] = bareName(m->getParent());
                if (m->isVirtual()) o["virt"] = 1;
                if (m->isCopyAssignmentOperator()) o["sm"] = "copyassign";
                if (m->isMoveAssignmentOperator()) o["sm"] = "moveassign";
                if (auto* c = dyn_cast<CXXConstructorDecl>(m))
                    o["sm"] = c->isCopyConstructor() ? "copyctor" : c->isMoveConstructor() ? "movector" : "ctor";
                if (isa<CXXDestructorDecl>(m)) o["sm"] = "dtor";
                o["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_private ? "private" : "protected";
                if (m->isImplicit()) o["impl"] = 1;
            }
        }
        return o;
    }

    json::Value dumpRecord(const CXXRecordDecl* r)
    {
        json::Object o;
        o["q"] = bareName(r);
        o["ty"] = typeStr(X.ast->getRecordType(r), *X.ast);
        auto& L = X.ast->getASTRecordLayout(r);
        (void)L;
        json::Array fs;
        for (auto* f : r->fields())
        {
            auto         ft = f->getType();
            json::Object fo{{"n", f->getNameAsString()}, {"t", typeStr(ft, *X.ast)}, {"off", (int64_t)L.getFieldOffset(f->getFieldIndex()) / 8}};
            fo["acc"] = f->getAccess() == AS_public ? "public" : f->getAccess() == AS_private ? "private" : "protected";
            if (f->hasInClassInitializer()) fo["init"] = 1;
            if (ft->isReferenceType()) fo["ref"] = 1;
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        json::Array sv;
        for (auto* d : r->decls())
            if (auto* v = dyn_cast<VarDecl>(d)) sv.push_back(json::Object{{"n", v->getNameAsString()}, {"t", typeStr(v->getType(), *X.ast)}, {"inl", v->isInline()}});
        o["statics"] = std::move(sv);
        json::Array bs;
        for (auto& b : r->bases()) bs.push_back(typeStr(b.getType(), *X.ast));
        o["bases"] = std::move(bs);
        auto*        rr = const_cast<CXXRecordDecl*>(r);
        json::Object sm;
        auto         st = [&](const FunctionDecl* m) -> std::string {
            if (m->isDeleted()) return "deleted";
            if (m->isDefaulted()) return m->isUserProvided() ? "defaulted-out" : "defaulted";
            return "user";
        };
        for (auto* c : rr->ctors())
        {
            if (c->isCopyConstructor()) sm["copyctor"] = st(c);
            else if (c->isMoveConstructor()) sm["movector"] = st(c);
        }
        for (auto* m : rr->methods())
        {
            if (m->isCopyAssignmentOperator()) sm["copyassign"] = st(m);
            else if (m->isMoveAssignmentOperator()) sm["moveassign"] = st(m);
        }
        if (!sm.get("copyctor") && rr->needsImplicitCopyConstructor())
            sm["copyctor"] = !rr->needsOverloadResolutionForCopyConstructor() && !rr->defaultedCopyConstructorIsDeleted() ? "implicit" : "none";
        if (!sm.get("copyassign") && rr->needsImplicitCopyAssignment() && !rr->needsOverloadResolutionForCopyAssignment())
            sm["copyassign"] = "implicit";
        if (auto* d = rr->getDestructor()) sm["dtor"] = st(d);
        o["sm"] = std::move(sm);
        if (r->isPolymorphic()) o["poly"] = 1;
        if (r->isLambda()) o["lambda"] = 1;
        auto& SM = X.ast->getSourceManager();
        auto  pl = SM.getPresumedLoc(r->getLocation());
        if (pl.isValid()) o["loc"] = json::Array{std::string(pl.getFilename()), (int64_t)pl.getLine()};
        return o;
    }

    void HandleTranslationUnit(ASTContext& A) override
    {
        if (CI.getDiagnostics().hasErrorOccurred()) return;
        llvm::Module* M = CG->GetModule();
        if (!M) return;
        X.ast = &A;
        X.cg  = CG;
        DL    = &M->getDataLayout();
        CollectTypes(X).TraverseDecl(A.getTranslationUnitDecl());
        // struct types that occur in the module
        std::set<std::string> used;
        for (auto* s : M->getIdentifiedStructTypes()) used.insert(s->getName().str());
        auto& CGM = CG->CGM();
        for (auto* r : X.allRecords)
        {
            if (!r->getDeclContext()) continue;
            bool coroRelated = true;
            (void)coroRelated;
            auto* t = CodeGen::convertTypeForMemory(CGM, A.getRecordType(r));
            auto* s = dyn_cast_or_null<llvm::StructType>(t);
            if (!s || !s->hasName()) continue;
            Ctx::Rec rec;
            rec.name = bareName(r);
            rec.d    = r;
            auto& L  = A.getASTRecordLayout(r);
            for (auto* f : r->fields()) rec.fields.push_back({L.getFieldOffset(f->getFieldIndex()) / 8, f});
            X.recs[s->getName().str()] = rec;
            std::string bn             = s->getName().str() + ".base";
            if (used.count(bn)) X.recs[bn] = rec;
        }
        // promote allocas whose address does not escape; nothing else is changed
        {
            llvm::LoopAnalysisManager     lam;
            llvm::FunctionAnalysisManager fam;
            llvm::CGSCCAnalysisManager    cgam;
            llvm::ModuleAnalysisManager   mam;
            llvm::PassBuilder             pb;
            pb.registerModuleAnalyses(mam);
            pb.registerCGSCCAnalyses(cgam);
            pb.registerFunctionAnalyses(fam);
            pb.registerLoopAnalyses(lam);
            pb.crossRegisterProxies(lam, fam, cgam, mam);
            for (auto& f : *M)
                if (!f.isDeclaration())
                {
                    llvm::SROAPass p(llvm::SROAOptions::PreserveCFG);
                    p.run(f, fam);
                }
        }
        json::Array fns;
        json::Object names; // callee mangled -> {q, dem}
        std::set<std::string> callees;
        for (auto& f : *M)
        {
            const FunctionDecl* fd = nullptr;
            if (auto* d = CG->GetDeclForMangledName(f.getName())) fd = dyn_cast<FunctionDecl>(d);
            std::string q;
            bool        coro = false;
            if (fd) { q = bareName(fd); coro = inCoro(fd); }
            else
            {
                q = llvm::demangle(f.getName().str());
                coro = q.rfind("coro::", 0) == 0;
            }
            if (!f.isDeclaration() && wantFunction(q, f.arg_size(), coro)) fns.push_back(dumpFn(f, fd, q));
            json::Object e{{"q", q}};
            if (fd)
            {
                e["rt"] = typeStr(fd->getReturnType(), A);
                if (fd->hasAttr<WarnUnusedResultAttr>()) e["nd"] = 1;
                if (auto* m = dyn_cast<CXXMethodDecl>(fd))
                {
                    e["meth"] = m->isStatic() ? 0 : 1;
                    if (m->isConst()) e["const"] = 1;
                    e["cls"] = typeStr(A.getRecordType(m->getParent()), A);
                }
                json::Array pt;
                for (auto* p : fd->parameters()) pt.push_back(typeStr(p->getType(), A));
                e["pt"] = std::move(pt);
                if (coro) e["coro"] = 1;
            }
            e["dem"] = llvm::demangle(f.getName().str());
            names[f.getName()] = std::move(e);
        }
        json::Array recs;
        for (auto* r : X.allRecords)
            if (inCoro(r)) recs.push_back(dumpRecord(r));
        json::Array ens;
        for (auto* e : X.enums)
        {
            json::Array vs;
            for (auto* c : e->enumerators()) vs.push_back(json::Array{c->getNameAsString(), c->getInitVal().getExtValue()});
            ens.push_back(json::Object{{"q", bareName(e)}, {"v", std::move(vs)}});
        }
        json::Array fl;
        for (auto& s : files) fl.push_back(s);
        json::Object out;
        out["fns"] = std::move(fns);
        out["names"] = std::move(names);
        out["recs"] = std::move(recs);
        out["enums"] = std::move(ens);
        json::Object tx;
        for (auto& [k, v] : X.texts) tx[k] = v;
        out["texts"] = std::move(tx);
        out["files"] = std::move(fl);
        std::error_code      ec;
        llvm::raw_fd_ostream os(OutFile, ec);
        os << json::Value(std::move(out)) << "\n";
    }
};

class Action : public ASTFrontendAction
{
public:
    llvm::LLVMContext LC;
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef file) override
    {
        auto& cgo = CI.getCodeGenOpts();
        cgo.OptimizationLevel = 0;
        cgo.DisableO0ImplyOptNone = true;
        cgo.DiscardValueNames = false;      // parameters keep their names
        LC.setDiscardValueNames(false);
        cgo.DisableLLVMPasses = true;
        cgo.setDebugInfo(llvm::codegenoptions::DebugLineTablesOnly);
        auto* cg = CreateLLVMCodeGen(
            CI.getDiagnostics(), file, &CI.getVirtualFileSystem(), CI.getHeaderSearchOpts(), CI.getPreprocessorOpts(), cgo, LC);
        std::vector<std::unique_ptr<ASTConsumer>> v;
        v.push_back(std::make_unique<ForceEmit>());
        v.push_back(std::unique_ptr<ASTConsumer>(cg));
        v.push_back(std::make_unique<Dump>(CI, cg));
        return std::make_unique<MultiplexConsumer>(std::move(v));
    }
};

int main(int argc, char** argv)
{
    // factgen OUT SOURCE -- flags...
    if (argc < 4) { llvm::errs() << "usage: factgen OUT SOURCE -- flags\n"; return 2; }
    OutFile = argv[1];
    std::string src = argv[2];
    std::vector<std::string> flags;
    for (int i = 4; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {src});
    struct Fac : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); } } fac;
    return tool.run(&fac);
}
